From 31620eddb151c1038b89966b889fd15f7eb9aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 01/62] fix: consume end-of-content octets of indefinite length
 BER elements

---
 src/iso8825_ber.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index ed64e25..8309c73 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -86,6 +86,7 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	int r;
 	const uint8_t* buf = ptr;
 	size_t offset = 0;
+	size_t eoc_len = 0;
 
 	if (!ptr || !tlv) {
 		return -1;
@@ -142,7 +143,13 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 			}
 
 			// Check for end-of-content
+			// See ISO 8825-1:2003, 8.1.5
 			if (inner_tlv.tag == ASN1_EOC) {
+				if (r != 2 || inner_tlv.length) {
+					// Invalid end-of-content
+					return -12;
+				}
+				eoc_len = r;
 				break;
 			}
 
@@ -195,6 +202,9 @@ int iso8825_ber_decode(const void* ptr, size_t len, struct iso8825_tlv_t* tlv)
 	tlv->value = &buf[offset];
 	offset += tlv->length;
 
+	// Consume end-of-content octets, if indefinite length form
+	offset += eoc_len;
+
 	// Capture class and primitive/constructed bits as flags
 	tlv->flags = buf[0] & (ISO8825_BER_CLASS_MASK | ISO8825_BER_CONSTRUCTED);
 
-- 
2.43.0


From 4a4616746d8326e0a8ec8373d6a03719d96bd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:18 +0000
Subject: [PATCH 02/62] fix: bound and validate OID decoding

---
 src/iso8825_ber.c | 66 ++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/iso8825_ber.c b/src/iso8825_ber.c
index 8309c73..c67cc1e 100644
--- a/src/iso8825_ber.c
+++ b/src/iso8825_ber.c
@@ -277,41 +277,36 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 {
 	const uint8_t* buf = ptr;
 
-	memset(oid, 0, sizeof(*oid));
-
 	if (!ptr || !oid || !len) {
 		return -1;
 	}
 
-	if (len >= sizeof(oid->value)) {
-		// OID too long
-		return -2;
-	}
-
-	// See ISO 8825-1:2003, 8.19.4
-	if (buf[0] < 40) { // ITU-T
-		oid->value[0] = ASN1_OID_ITU_T;
-		oid->value[1] = buf[0];
-	} else if (buf[0] < 80) { // ISO
-		oid->value[0] = ASN1_OID_ISO;
-		oid->value[1] = buf[0] - 40;
-	} else { // joint-iso-itu-t
-		oid->value[0] = ASN1_OID_JOINT;
-		oid->value[1] = buf[0] - 80;
-	}
-	oid->length = 2;
-	++buf;
-	--len;
+	memset(oid, 0, sizeof(*oid));
 
 	// See ISO 8825-1:2003, 8.19
-	while (len && oid->length < sizeof(oid->value)) {
-		uint32_t subid = 0;
+	while (len) {
+		uint64_t subid = 0;
+		bool last_octet;
+
+		if (oid->length >= sizeof(oid->value) / sizeof(oid->value[0])) {
+			// OID too long
+			return -2;
+		}
 
 		// Decode multibyte subidentifier
-		while (len) {
+		do {
+			if (!len) {
+				// Incomplete subidentifier
+				return -3;
+			}
+			if (subid >> 32) {
+				// Subidentifier too large
+				return -4;
+			}
+
 			// Determine whether it is the last octet of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
-			bool last_octet = !(*buf & 0x80); // TODO: use define
+			last_octet = !(*buf & 0x80); // TODO: use define
 
 			// Extract the next 7 bits of the subidentifier
 			// See ISO 8825-1:2003, 8.19.2
@@ -319,9 +314,26 @@ int iso8825_ber_oid_decode(const void* ptr, size_t len, struct iso8825_oid_t* oi
 			subid |= *buf & 0x7f; // TODO: use define
 			++buf;
 			--len;
+		} while (!last_octet);
+
+		// First subidentifier represents first two OID components
+		// See ISO 8825-1:2003, 8.19.4
+		if (oid->length == 0) {
+			if (subid < 40) { // ITU-T
+				oid->value[0] = ASN1_OID_ITU_T;
+			} else if (subid < 80) { // ISO
+				oid->value[0] = ASN1_OID_ISO;
+				subid -= 40;
+			} else { // joint-iso-itu-t
+				oid->value[0] = ASN1_OID_JOINT;
+				subid -= 80;
+			}
+			oid->length = 1;
+		}
 
-			if (last_octet)
-				break;
+		if (subid > UINT32_MAX) {
+			// Subidentifier too large
+			return -4;
 		}
 
 		// Store subidentifier
-- 
2.43.0


From 7b8a8c57ed0774be195f651756f7cd98ebcc64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:25 +0000
Subject: [PATCH 03/62] fix: use correct extended length octets when
 determining C-APDU case

---
 src/iso7816_apdu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso7816_apdu.h b/src/iso7816_apdu.h
index c8c860e..1877c80 100644
--- a/src/iso7816_apdu.h
+++ b/src/iso7816_apdu.h
@@ -118,8 +118,8 @@ static inline int iso7816_apdu_case(const void* c_apdu, size_t c_apdu_len)
 			if (c_apdu_len > 7) {
 				// Extract bytes C6C7 from header
 				// See ISO 7816-3:2006, 12.1.3, table 13
-				unsigned int C6 = *(uint8_t*)(c_apdu + 6);
-				unsigned int C7 = *(uint8_t*)(c_apdu + 7);
+				unsigned int C6 = *(uint8_t*)(c_apdu + 5);
+				unsigned int C7 = *(uint8_t*)(c_apdu + 6);
 				unsigned int C6C7 = (C6 << 8) + C7;
 
 				if (C6C7) {
-- 
2.43.0


From c493c89e90cb0da835b8a4e19fbe50b7098c6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:26 +0000
Subject: [PATCH 04/62] fix: report JCB AID as recognised

---
 src/emv_fields.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emv_fields.c b/src/emv_fields.c
index cd097a1..3c6e6a5 100644
--- a/src/emv_fields.c
+++ b/src/emv_fields.c
@@ -217,6 +217,7 @@ int emv_aid_get_info(
 	// JCB
 	if (emv_aid_match(aid, aid_len, jcb_aid)) {
 		info->scheme = EMV_CARD_SCHEME_JCB;
+		return 0;
 	}
 
 	// Dankort
-- 
2.43.0


From b2635a3d32a6fc9ae70946f7f1f5e3361875060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 05/62] fix: validate ATR historical bytes length for
 COMPACT-TLV categories

---
 src/iso7816.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index 8fe6836..c11baa4 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -194,6 +194,10 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		switch (atr_info->T1) {
 			case ISO7816_ATR_T1_COMPACT_TLV_SI:
 				// Store status indicator bytes for later parsing
+				if (atr_info->historical_bytes_len < 3) {
+					// Insufficient historical bytes for status indicator
+					return 5;
+				}
 				atr_info->historical_bytes_len -= 3;
 				atr_info->status_indicator_bytes = atr_info->historical_bytes + atr_info->historical_bytes_len;
 				atr_info->status_indicator_bytes_len = 3;
@@ -714,6 +718,11 @@ static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size
 	struct iso7816_compact_tlv_itr_t itr;
 	struct iso7816_compact_tlv_t tlv;
 
+	if (!historical_bytes_len) {
+		// No COMPACT-TLV data objects
+		return 0;
+	}
+
 	r = iso7816_compact_tlv_itr_init(historical_bytes, historical_bytes_len, &itr);
 	if (r) {
 		return 24;
-- 
2.43.0


From f4e960e55738548a6b2413ec6d83d956598a3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 06/62] fix: consume ATR interface byte TD4

---
 src/iso7816.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso7816.c b/src/iso7816.c
index c11baa4..f8c318c 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -165,6 +165,16 @@ int iso7816_atr_parse(const uint8_t* atr, size_t atr_len, struct iso7816_atr_inf
 		}
 	}
 
+	if (atr_info->TD[4]) {
+		// Consume TD4 because it is not consumed by the loop above
+		++atr_idx;
+
+		if (*atr_info->TD[4] & ~ISO7816_ATR_Tx_OTHER_MASK) {
+			// More interface bytes than supported
+			return 9;
+		}
+	}
+
 	// Compute various derived parameters
 	iso7816_compute_gt(atr_info);
 	iso7816_compute_wt(atr_info);
-- 
2.43.0


From f21cd78c0d609277be47620c76f9fa4b3357bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:49 +0000
Subject: [PATCH 07/62] fix: avoid integer overflow when computing ATR BWT

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index f8c318c..7475bd6 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -719,7 +719,7 @@ static void iso7816_compute_wt(struct iso7816_atr_info_t* atr_info)
 	// BWT = (((2^BWI x 960 x 372 x D / F) + 11)etu; where D is Di and F is Fi
 
 	// And finally, after all that thinking...
-	atr_info->protocol_T1.BWT = 11 + (((1 << BWI) * 960 * 372 * Di) / Fi);
+	atr_info->protocol_T1.BWT = 11 + (((uint64_t)(1 << BWI) * 960 * 372 * Di) / Fi);
 }
 
 static int iso7816_atr_parse_historical_bytes(const void* historical_bytes, size_t historical_bytes_len, struct iso7816_atr_info_t* atr_info)
-- 
2.43.0


From eb8cb230f800c92d88e6e5f92fcc5e5f7a51ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:07 +0000
Subject: [PATCH 08/62] fix: report EMV format n values that do not fit 32 bits

---
 src/emv_tlv.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index 30496d6..29d4fa9 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -457,12 +457,14 @@ const uint8_t* emv_uint_to_format_n(uint32_t value, uint8_t* buf, size_t buf_len
 
 int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 {
+	uint64_t x;
+
 	if (!buf || !buf_len || !value) {
 		return -1;
 	}
 
 	// Extract two decimal digits per byte
-	*value = 0;
+	x = 0;
 	for (unsigned int i = 0; i < buf_len; ++i) {
 		uint8_t digit;
 
@@ -473,7 +475,7 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			return 1;
 		}
 		// Shift decimal digit into x
-		*value = (*value * 10) + digit;
+		x = (x * 10) + digit;
 
 		// Extract least significant nibble
 		digit = buf[i] & 0xf;
@@ -482,8 +484,14 @@ int emv_format_n_to_uint(const uint8_t* buf, size_t buf_len, uint32_t* value)
 			return 2;
 		}
 		// Shift decimal digit into x
-		*value = (*value * 10) + digit;
+		x = (x * 10) + digit;
+
+		if (x > UINT32_MAX) {
+			// Value too large for 32-bit unsigned integer
+			return 3;
+		}
 	}
+	*value = x;
 
 	return 0;
 }
-- 
2.43.0


From 30a40eeab757fc5225b18673e35205d3df602f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 09/62] fix: stringify EMV format n values of any length

---
 src/emv_strings.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 2848a90..4acf941 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1568,15 +1568,42 @@ int emv_format_cn_get_string(const uint8_t* buf, size_t buf_len, char* str, size
 
 int emv_format_n_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t str_len)
 {
-	int r;
-	uint32_t value;
+	bool found_first_digit = false;
 
-	r = emv_format_n_to_uint(buf, buf_len, &value);
-	if (r) {
-		return r;
+	if (!buf || !buf_len || !str || !str_len) {
+		return -1;
 	}
 
-	return emv_uint_to_str(value, str, str_len);
+	// Validate all digits before writing to string buffer
+	for (size_t i = 0; i < buf_len; ++i) {
+		if ((buf[i] >> 4) > 9 || (buf[i] & 0xf) > 9) {
+			// Invalid digit
+			return 1;
+		}
+	}
+
+	for (size_t i = 0; i < buf_len * 2; ++i) {
+		uint8_t digit = (i & 0x1) ? (buf[i / 2] & 0xf) : (buf[i / 2] >> 4);
+
+		// Omit leading zeros but always provide the last digit
+		if (digit == 0 && !found_first_digit && i + 1 < buf_len * 2) {
+			continue;
+		}
+		found_first_digit = true;
+
+		if (str_len < 2) {
+			// No space left for digit and NULL termination
+			*str = 0;
+			return -3;
+		}
+		*str = '0' + digit;
+		++str;
+		--str_len;
+	}
+
+	*str = 0; // NULL terminate string
+
+	return 0;
 }
 
 static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
-- 
2.43.0


From b9560aeccc3b9e5adfb315525f9862ba39a91a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:08 +0000
Subject: [PATCH 10/62] fix: never NULL terminate integer string beyond buffer

---
 src/emv_strings.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 4acf941..dd2e19e 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1632,18 +1632,17 @@ static int emv_uint_to_str(uint32_t value, char* str, size_t str_len)
 		c = '0' + digit;
 
 		if (digit != 0 || found_first_digit) {
+			if (str_len < 2) {
+				// No space left for digit and NULL termination
+				str[0] = 0;
+				return -3;
+			}
 			*str = c;
 			++str;
 			--str_len;
 			found_first_digit = true;
 		}
 
-		if (str_len == 0) {
-			// No space left to NULL terminate
-			str[0] = 0;
-			return -3;
-		}
-
 		value %= divider;
 		divider /= 10;
 	}
-- 
2.43.0


From 82e6dde0e3a0ac3d49645eaaf1dbb091baad20b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 11/62] fix: use INS of command header for T=0 procedure bytes
 after data

---
 src/emv_ttl.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 20657d0..b1ab6a2 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -45,6 +45,9 @@ int emv_ttl_trx(
 	// C-TPDU data: found after P3; NULL if absent
 	const void* c_tpdu_data = NULL;
 
+	// INS of most recent command header
+	uint8_t INS;
+
 	// Next buffer to transmit
 	const void* tx_buf;
 	size_t tx_buf_len;
@@ -113,12 +116,14 @@ int emv_ttl_trx(
 		return -3;
 	}
 
+	// Store INS of command header for later use
+	INS = *((uint8_t*)(c_apdu + 1));
+
 	// Clear SW1-SW2 to allow it to be checked later
 	*sw1sw2 = 0;
 
 	do {
 		int r;
-		uint8_t INS;
 		uint8_t rx_buf[EMV_RAPDU_MAX];
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
@@ -140,9 +145,6 @@ int emv_ttl_trx(
 
 		emv_debug_rtpdu(rx_buf, rx_len);
 
-		// Store INS of most recent tx for later use
-		INS = *((uint8_t*)(tx_buf + 1));
-
 		// Extract SW1-SW2 status bytes
 		if (rx_len > 1) {
 			SW1 = *((uint8_t*)(rx_buf + rx_len - 2));
@@ -391,6 +393,7 @@ int emv_ttl_trx(
 			c_tpdu_header[2] = 0x00; // P1
 			c_tpdu_header[3] = 0x00; // P2
 			c_tpdu_header[4] = Le;   // Le
+			INS = c_tpdu_header[1];
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
-- 
2.43.0


From 8abf09f063df6cb422b747f95cba4afb6c2b950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 12/62] fix: only transmit remaining command data for T=0 ACK

---
 src/emv_ttl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index b1ab6a2..56f56d9 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -200,8 +200,9 @@ int emv_ttl_trx(
 					return 4;
 				}
 
+				// Next transmit length is remainder of [Data(Lc)]
 				tx_buf = c_tpdu_data;
-				tx_buf_len = c_tpdu_header[4]; // Next transmit length is Lc
+				tx_buf_len = c_tpdu_header[4] - (c_tpdu_data - (c_apdu + 5));
 
 				// No more data available
 				c_tpdu_data = NULL;
@@ -397,6 +398,9 @@ int emv_ttl_trx(
 			tx_buf = c_tpdu_header;
 			tx_buf_len = sizeof(c_tpdu_header);
 
+			// Remaining command data, if any, is no longer applicable
+			c_tpdu_data = NULL;
+
 			// Next transmission
 			continue;
 		}
-- 
2.43.0


From 54c4e3a29444abcf32e54437ff7aa8fff4583a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 13/62] fix: re-issue whole command with updated Le

---
 src/emv_ttl.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 56f56d9..7efcd45 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -48,6 +48,9 @@ int emv_ttl_trx(
 	// INS of most recent command header
 	uint8_t INS;
 
+	// C-APDU with updated Le; only used for APDU mode and case 4S
+	uint8_t c_apdu_le[EMV_CAPDU_MAX];
+
 	// Next buffer to transmit
 	const void* tx_buf;
 	size_t tx_buf_len;
@@ -408,10 +411,26 @@ int emv_ttl_trx(
 		if (tx_update_le) {
 			// Update Le for next transmission
 			// See EMV Contact Interface Specification v1.0, 9.2.2.3.1, table 25
-			memcpy(c_tpdu_header, tx_buf, 4);
-			c_tpdu_header[4] = SW2; // P3 = Le
-			tx_buf = c_tpdu_header;
-			tx_buf_len = sizeof(c_tpdu_header);
+			if (ctx->cardreader.mode == EMV_CARDREADER_MODE_APDU &&
+				apdu_case == ISO7816_APDU_CASE_4S &&
+				tx_buf != c_tpdu_header
+			) {
+				// For APDU mode, transmit whole C-APDU with updated Le
+				memcpy(c_apdu_le, c_apdu, c_apdu_len);
+				c_apdu_le[c_apdu_len - 1] = SW2;
+				tx_buf = c_apdu_le;
+				tx_buf_len = c_apdu_len;
+			} else {
+				if (tx_buf == c_apdu) {
+					memcpy(c_tpdu_header, c_apdu, 4);
+				}
+				c_tpdu_header[4] = SW2; // P3 = Le
+				tx_buf = c_tpdu_header;
+				tx_buf_len = sizeof(c_tpdu_header);
+			}
+
+			// Remaining command data, if any, is no longer applicable
+			c_tpdu_data = NULL;
 
 			// Next transmission
 			continue;
-- 
2.43.0


From 15f86be5aa967d161d44022b40eb9a7aca3b67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:19 +0000
Subject: [PATCH 14/62] fix: allow T=0 responses with 256 bytes of data

---
 src/emv_ttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index 7efcd45..d153bbe 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -127,7 +127,7 @@ int emv_ttl_trx(
 
 	do {
 		int r;
-		uint8_t rx_buf[EMV_RAPDU_MAX];
+		uint8_t rx_buf[EMV_RAPDU_MAX + 1]; // INS may precede response data in TPDU mode
 		size_t rx_len = sizeof(rx_buf);
 		uint8_t SW1;
 		uint8_t SW2;
-- 
2.43.0


From 9e9e7872b08e10f6eec4b4cc251bbb64c484e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 15/62] fix: require R-APDU buffer to have space for SW1-SW2

---
 src/emv_ttl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_ttl.c b/src/emv_ttl.c
index d153bbe..4dfde13 100644
--- a/src/emv_ttl.c
+++ b/src/emv_ttl.c
@@ -58,7 +58,7 @@ int emv_ttl_trx(
 	// Current position in R-APDU output
 	uint8_t* r_apdu_ptr = r_apdu;
 
-	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || !*r_apdu_len || !sw1sw2) {
+	if (!ctx || !c_apdu || !c_apdu_len || !r_apdu || !r_apdu_len || *r_apdu_len < 2 || !sw1sw2) {
 		return -1;
 	}
 
-- 
2.43.0


From 41eaf10d8995bf6f2d548402b852f7e36a3dc5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 16/62] fix: keep order of applications without priority when
 sorting

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index a76a46f..1046d4e 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -520,7 +520,7 @@ int emv_app_list_sort_priority(struct emv_app_list_t* list)
 		// implementation chooses to favour applications with a priority
 		// indicator over those without.
 		for (struct emv_app_t* cur = sorted_list.front; cur != NULL; cur = cur->next) {
-			if (!cur->priority) {
+			if (app->priority && !cur->priority) {
 				break;
 			}
 			if (app->priority && app->priority < cur->priority) {
-- 
2.43.0


From 18a051dc3d6bbf06097a51647fdaf5112c57ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:40 +0000
Subject: [PATCH 17/62] fix: never split UTF-8 characters when truncating ISO
 8859 text

---
 src/iso8859_boost.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iso8859_boost.cpp b/src/iso8859_boost.cpp
index 5e5368b..d69be10 100644
--- a/src/iso8859_boost.cpp
+++ b/src/iso8859_boost.cpp
@@ -67,6 +67,15 @@ int iso8859_to_utf8(
 			return 2;
 		}
 
+		if (utf8_str.size() > utf8_len - 1) {
+			// Truncate without splitting a UTF-8 character
+			std::size_t len = utf8_len - 1;
+			while (len && (utf8_str[len] & 0xC0) == 0x80) {
+				--len;
+			}
+			utf8_str.resize(len);
+		}
+
 		std::strncpy(utf8, utf8_str.c_str(), utf8_len - 1);
 		utf8[utf8_len - 1] = 0;
 
-- 
2.43.0


From 7f023027df42c721fa9d644fcf88e5968bb9f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 18/62] fix: stop reading PSE records after record number 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 644e602..a932ae8 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -149,7 +149,7 @@ int emv_tal_read_pse(
 
 	// Read all records from PSE AEF using the SFI
 	// See EMV 4.4 Book 1, 12.2.3
-	for (uint8_t record_number = 1; ; ++record_number) {
+	for (unsigned int record_number = 1; record_number <= 255; ++record_number) {
 		uint8_t aef_record[EMV_RAPDU_DATA_MAX];
 		size_t aef_record_len = sizeof(aef_record);
 
-- 
2.43.0


From 44966ee09b3038e5d9d8429cf27e2b0dccf23d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:00 +0000
Subject: [PATCH 19/62] fix: report actual tag of unexpected PSE record data
 element

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index a932ae8..e4a4f0a 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -240,7 +240,7 @@ static int emv_tal_parse_aef_record(
 	}
 	if (aef_template_tlv.tag != EMV_TAG_70_DATA_TEMPLATE) {
 		// No AEF template in PSE record; ignore and continue
-		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", tlv.tag);
+		emv_debug_error("Unexpected data element 0x%02X in PSE AEF record", aef_template_tlv.tag);
 		return EMV_TAL_RESULT_PSE_AEF_INVALID;
 	}
 
-- 
2.43.0


From 28a368cea377e43da7f31ca3ab3489cd87e416fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:03 +0000
Subject: [PATCH 20/62] fix: refuse to initiate the same application twice

---
 src/emv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index 0d456bf..e2665ec 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -502,10 +502,15 @@ int emv_initiate_application_processing(
 	struct emv_tlv_list_t gpo_output = EMV_TLV_LIST_INIT;
 
 	if (!ctx || !ctx->selected_app) {
-		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx->selected_app);
+		emv_debug_trace_msg("ctx=%p, selected_app=%p", ctx, ctx ? ctx->selected_app : NULL);
 		emv_debug_error("Invalid parameter");
 		return EMV_ERROR_INVALID_PARAMETER;
 	}
+	if (emv_tlv_list_is_empty(&ctx->selected_app->tlv_list)) {
+		// Application data already moved to ICC data list
+		emv_debug_error("Application processing already initiated");
+		return EMV_ERROR_INVALID_PARAMETER;
+	}
 
 	// Clear existing ICC data and terminal data lists to avoid ambiguity
 	emv_tlv_list_clear(&ctx->icc);
-- 
2.43.0


From 6523828357602b2657b266842b4d33a66144925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:03 +0000
Subject: [PATCH 21/62] fix: report empty AFL as card error

---
 src/emv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv.c b/src/emv.c
index e2665ec..a69a012 100644
--- a/src/emv.c
+++ b/src/emv.c
@@ -732,7 +732,7 @@ int emv_read_application_data(struct emv_ctx_t* ctx)
 	// Process Application File Locator (AFL)
 	// See EMV 4.4 Book 3, 10.2
 	afl = emv_tlv_list_find_const(&ctx->icc, EMV_TAG_94_APPLICATION_FILE_LOCATOR);
-	if (!afl) {
+	if (!afl || !afl->length) {
 		// AFL not found; terminate session
 		// See EMV 4.4 Book 3, 6.5.8.4
 		emv_debug_error("AFL not found");
-- 
2.43.0


From 41048fb6f4278cce3857a59efc3e13ba2cc8d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 22/62] fix: stop reading AFL records after record number 255

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index e4a4f0a..298391a 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -754,7 +754,7 @@ static int emv_tal_read_sfi_records(
 		return EMV_TAL_ERROR_INVALID_PARAMETER;
 	}
 
-	for (uint8_t record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
+	for (unsigned int record_number = afl_entry->first_record; record_number <= afl_entry->last_record; ++record_number) {
 		uint8_t record[EMV_RAPDU_DATA_MAX];
 		size_t record_len = sizeof(record);
 		uint16_t sw1sw2;
-- 
2.43.0


From a42857004453c181059a4e1497630dc3c7cb2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 23/62] fix: do not output AIP that is freed when AFL is
 missing

---
 src/emv_tal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 298391a..2150389 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -714,6 +714,9 @@ int emv_tal_get_processing_options(
 		// Mandatory field missing; terminate session
 		// See EMV 4.4 Book 3, 6.5.8.4
 		emv_debug_error("AFL not found in GPO response");
+		if (aip) {
+			*aip = NULL;
+		}
 		r = EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND;
 		goto exit;
 	}
-- 
2.43.0


From 1bf4f8bbba873a81fa97cf9a0e854dacb573a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:41 +0000
Subject: [PATCH 24/62] fix: NULL terminate string lists that have no entries

---
 src/emv_strings.c     | 5 +++++
 src/iso7816_strings.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index dd2e19e..a72d1ac 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2025,6 +2025,11 @@ static void emv_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 ATTRIBUTE_FORMAT_PRINTF(2, 3)
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index ed23dde..5970a2a 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -35,6 +35,11 @@ static void iso7816_str_list_init(struct str_itr_t* itr, char* buf, size_t len)
 {
 	itr->ptr = buf;
 	itr->len = len;
+
+	// NULL terminate empty string list
+	if (len) {
+		*itr->ptr = 0;
+	}
 }
 
 static void iso7816_str_list_add(struct str_itr_t* itr, const char* str)
-- 
2.43.0


From 64a741e5350b5ac4634b0c09c1c7a19c4a424121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:42 +0000
Subject: [PATCH 25/62] fix: check length of C-APDU instead of string buffer
 when describing commands

---
 src/emv_strings.c     | 2 +-
 src/iso7816_strings.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index a72d1ac..82e3bd7 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -6007,7 +6007,7 @@ int emv_capdu_get_string(
 
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See EMV Contact Interface Specification v1.0, 9.4.1
 		return -2;
diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index 5970a2a..cb97289 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -423,7 +423,7 @@ const char* iso7816_capdu_get_string(
 	}
 	str[0] = 0; // NULL terminate
 
-	if (str_len < 4) {
+	if (c_apdu_len < 4) {
 		// C-APDU must be least 4 bytes
 		// See ISO 7816-4:2005, 5.1
 		return NULL;
-- 
2.43.0


From e8a2c9b4cc5dc3560739c36dc245f80d52f3f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:42 +0000
Subject: [PATCH 26/62] fix: print last digit of longest file identifier when
 describing SELECT

---
 src/iso7816_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816_strings.c b/src/iso7816_strings.c
index cb97289..ac45b3e 100644
--- a/src/iso7816_strings.c
+++ b/src/iso7816_strings.c
@@ -143,7 +143,7 @@ static const char* iso7816_capdu_select_get_string(
 		for (size_t i = 0; i < apdu_case_4s->Lc; ++i) {
 			snprintf(
 				file_id_str + (i * 2),
-				sizeof(file_id_str) - 1 - (i * 2),
+				sizeof(file_id_str) - (i * 2),
 				"%02X",
 				apdu_case_4s->data[i]
 			);
-- 
2.43.0


From 9c913cb41d34d1e214ed2e95cead825f9fa18576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:43 +0000
Subject: [PATCH 27/62] fix: write beyond date and time digit buffers

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 82e3bd7..7bf1f9d 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -1832,7 +1832,7 @@ int emv_date_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		date_str[(i * 2) + 1] = '0' + digit;
 	}
-	date_str[(buf_len * 2) + 1] = 0;
+	date_str[buf_len * 2] = 0;
 
 	// Assume it's the 21st century; if it isn't, then hopefully we've at
 	// least addressed climate change...
@@ -1905,7 +1905,7 @@ int emv_time_get_string(const uint8_t* buf, size_t buf_len, char* str, size_t st
 		}
 		time_str[(i * 2) + 1] = '0' + digit;
 	}
-	time_str[(buf_len * 2) + 1] = 0;
+	time_str[buf_len * 2] = 0;
 
 	// Hours
 	memcpy(str + offset, time_str, 2);
-- 
2.43.0


From f5acbc59caa14bed6be82bdc4b49df4484fff8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:44 +0000
Subject: [PATCH 28/62] fix: check string buffer length for Track 2 Equivalent
 Data

---
 src/emv_strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 7bf1f9d..30cac33 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2887,6 +2887,11 @@ int emv_track2_equivalent_data_get_string(
 		return 0;
 	}
 
+	// Minimum string length
+	if (str_len < track2_len * 2 + 1) {
+		return -2;
+	}
+
 	// The easiest way to convert track2 data to a string is to simply extract
 	// each nibble and add 0x30 ('0') to create the equivalent ASCII character
 	// All ASCII digits from 0x30 to 0x3F are printable and it is only
-- 
2.43.0


From bfb318db4bfd428ad8105a443c743c22de59b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 29/62] fix: PSE and PPSE detection for DF Name (field 84)
 description

---
 src/emv_strings.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 30cac33..50bbffc 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -245,10 +245,11 @@ int emv_tlv_get_info(
 				"Identifies the name of the Dedicated File (DF) as described "
 				"in ISO/IEC 7816-4";
 			info->format = EMV_FORMAT_B;
-			if ((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE))) ||
-				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)))
+			if (tlv->value &&
+				((tlv->length == strlen(EMV_PSE) && strncmp((const char*)tlv->value, EMV_PSE, strlen(EMV_PSE)) == 0) ||
+				(tlv->length == strlen(EMV_PPSE) && strncmp((const char*)tlv->value, EMV_PPSE, strlen(EMV_PPSE)) == 0))
 			) {
-				if (value_str_len > tlv->length) {
+				if (value_str && value_str_len > tlv->length) {
 					memcpy(value_str, tlv->value, tlv->length);
 					value_str[tlv->length] = 0;
 				}
-- 
2.43.0


From 39b28cf5c9aef21a32d1122bf2829e96b10753b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:46 +0000
Subject: [PATCH 30/62] fix: do not read absent or empty field values for
 descriptions

---
 src/emv_strings.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 50bbffc..85f090b 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -398,7 +398,7 @@ int emv_tlv_get_info(
 				"The actual values to be used for the Transaction Type data "
 				"element are defined by the relevant payment system.";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -552,7 +552,7 @@ int emv_tlv_get_info(
 				"Indicates the type of account selected on the "
 				"terminal, coded as specified in Annex G";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -886,7 +886,7 @@ int emv_tlv_get_info(
 				"Indicates the type of cryptogram and the actions to be "
 				"performed by the terminal";
 			info->format = EMV_FORMAT_B;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -924,7 +924,7 @@ int emv_tlv_get_info(
 				"Indicates the environment of the terminal, its "
 				"communications capability, and its operational control";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -963,7 +963,7 @@ int emv_tlv_get_info(
 				"Indicates the method by which the PAN was entered, according "
 				"to the first two digits of the ISO 8583:1987 POS Entry Mode";
 			info->format = EMV_FORMAT_N;
-			if (!tlv->value) {
+			if (!tlv->value || !tlv->length) {
 				// Cannot use tlv->value[0], even if value_str is NULL.
 				// This is typically for Data Object List (DOL) entries that
 				// have been packed into TLV entries for this function to use.
@@ -1327,6 +1327,9 @@ static int emv_tlv_value_get_string(const struct emv_tlv_t* tlv, enum emv_format
 				r = emv_format_ans_only_space_get_string(tlv->value, tlv->length, value_str, value_str_len);
 			}
 			else if (tlv->tag == EMV_TAG_9F12_APPLICATION_PREFERRED_NAME) {
+				if (!tlv->value) {
+					return -1;
+				}
 				// TODO: Convert EMV_TAG_9F12_APPLICATION_PREFERRED_NAME from the appropriate ISO/IEC 8859 code page to UTF-8
 				memcpy(value_str, tlv->value, tlv->length);
 				value_str[tlv->length] = 0; // NULL terminate
-- 
2.43.0


From a3c63c6cc17d780255e142e2accedf3e53f85eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:08 +0000
Subject: [PATCH 31/62] fix: check length of Third Party Data before reading
 Device Type

---
 src/emv_strings.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 85f090b..8a3463e 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5251,6 +5251,13 @@ int emv_mastercard_third_party_data_get_string_list(
 		char device_type[3];
 		const char* device_type_str;
 
+		// If Device Type is present, minimum field length is 7
+		tpd_len_min = 7;
+		if (tpd_len < tpd_len_min) {
+			// Invalid Mastercard Third Party Data (field 9F6E) length
+			return 1;
+		}
+
 		memcpy(device_type, tpd_ptr, 2);
 		device_type[2] = 0; // NULL terminate
 
@@ -5262,9 +5269,6 @@ int emv_mastercard_third_party_data_get_string_list(
 			emv_str_list_add(&itr, "Device Type: %s", device_type);
 		}
 
-		// If Device Type is present, minimum field length is 7
-		tpd_len_min = 7;
-
 		tpd_ptr += 2;
 	} else {
 		// If Device Type is absent, minimum field length is 5
-- 
2.43.0


From a75e76777f7c67379e5cb02198a0ff83ddb23029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:09 +0000
Subject: [PATCH 32/62] fix: description of CSU upper offline limits and of
 terminal without output

---
 src/emv_strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index 8a3463e..c8bcdef 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -2417,7 +2417,7 @@ int emv_addl_term_caps_get_string_list(
 	// Terminal Data Output Capability (byte 4)
 	// See EMV 4.4 Book 4, Annex A3, table 31
 	if (!(addl_term_caps[3] & EMV_ADDL_TERM_CAPS_OUTPUT_PRINT_OR_DISPLAY)) {
-		emv_str_list_add(&itr, "Terminal Data Input Capability: No print, electronic or display output");
+		emv_str_list_add(&itr, "Terminal Data Output Capability: No print, electronic or display output");
 	}
 	if ((addl_term_caps[3] & EMV_ADDL_TERM_CAPS_OUTPUT_PRINT_ATTENDANT)) {
 		emv_str_list_add(&itr, "Terminal Data Output Capability: Print or electronic, attendant");
@@ -5867,7 +5867,7 @@ static int emv_csu_append_string_list(
 		emv_str_list_add(itr, "Card Status Update (CSU): Do Not Update Offline Counters");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_UPPER_OFFLINE_LIMIT) {
-		emv_str_list_add(itr, "ard Status Update (CSU): Set Offline Counters to Upper Offline Limits");
+		emv_str_list_add(itr, "Card Status Update (CSU): Set Offline Counters to Upper Offline Limits");
 	}
 	if ((csu[1] & EMV_CSU_BYTE2_UPDATE_COUNTERS_MASK) == EMV_CSU_BYTE2_UPDATE_COUNTERS_RESET) {
 		emv_str_list_add(itr, "Card Status Update (CSU): Reset Offline Counters to Zero");
-- 
2.43.0


From 00dbb3d70714ac355a17ff3f7087f8526bea7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 33/62] fix: NULL terminate UTF-8 output of iconv
 implementation

---
 src/iso8859_iconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iso8859_iconv.c b/src/iso8859_iconv.c
index 7c00e44..8b7c02a 100644
--- a/src/iso8859_iconv.c
+++ b/src/iso8859_iconv.c
@@ -52,12 +52,13 @@ int iso8859_to_utf8(
 	char* inbuf = (char*)iso8859;
 	size_t inbytesleft = iso8859_len;
 	char* outbuf = utf8;
-	size_t outbytesleft = utf8_len;
+	size_t outbytesleft;
 
 	if (!iso8859 || !iso8859_len || !utf8 || !utf8_len) {
 		return -1;
 	}
 	utf8[0] = 0;
+	outbytesleft = utf8_len - 1; // Leave space for NULL termination
 
 	if (!iso8859_is_supported(codepage)) {
 		return 1;
@@ -70,6 +71,7 @@ int iso8859_to_utf8(
 	}
 	r = iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
 	iconv_close(cd);
+	*outbuf = 0; // NULL terminate
 	if (r == (size_t)-1) {
 		return 2;
 	}
-- 
2.43.0


From bd5538e5fa11c67852a9f080f007fe6aadeff67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 34/62] fix: NULL termination beyond UTF-8 buffer of simple
 implementation

---
 src/iso8859_simple.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso8859_simple.c b/src/iso8859_simple.c
index 9412595..e9f559c 100644
--- a/src/iso8859_simple.c
+++ b/src/iso8859_simple.c
@@ -58,14 +58,16 @@ int iso8859_to_utf8(
 			break;
 		}
 
-		// Ensure that at least 2 output bytes are available
-		if (utf8_len - utf8_idx < 2) {
+		// Ensure that sufficient output bytes are available for the UTF-8
+		// character and the NULL termination
+		if (utf8_len - utf8_idx < (iso8859[i] < 0x80 ? 2 : 3)) {
 			// Unsufficient space left in output buffer
 			break;
 		}
 
 		if (iso8859[i] < 0x20 || (iso8859[i] > 0x7E && iso8859[i] < 0xA0)) {
 			// Reject non-printable characters
+			utf8[utf8_idx] = 0;
 			return 2;
 		}
 
-- 
2.43.0


From 1e25970ad87d6c96d13625786f0224660d350418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:37 +0000
Subject: [PATCH 35/62] fix: dangling lookup references when initialising
 iso-codes again

---
 src/isocodes_lookup.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 689f2a5..58633dc 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -320,6 +320,13 @@ static bool build_country_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any existing lookup data before (re)building the list because the
+	// lookup maps refer to the list entries
+	country_alpha2_map.clear();
+	country_alpha3_map.clear();
+	country_numeric_map.clear();
+	country_list.clear();
+
 	country_list.reserve(iso3166_1_array_length);
 	r = json_c_visit(iso3166_1_obj, 0, &json_array_visit_userfunc, (void*)&country_list_append);
 	if (r) {
@@ -379,6 +386,12 @@ static bool build_currency_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any existing lookup data before (re)building the list because the
+	// lookup maps refer to the list entries
+	currency_alpha3_map.clear();
+	currency_numeric_map.clear();
+	currency_list.clear();
+
 	currency_list.reserve(iso4217_array_length);
 	r = json_c_visit(iso4217_obj, 0, &json_array_visit_userfunc, (void*)&currency_list_append);
 	if (r) {
@@ -433,6 +446,12 @@ static bool build_language_list(json_object* json_root) noexcept
 		return false;
 	}
 
+	// Discard any existing lookup data before (re)building the list because the
+	// lookup maps refer to the list entries
+	language_alpha2_map.clear();
+	language_alpha3_map.clear();
+	language_list.clear();
+
 	language_list.reserve(iso_639_2_array_length);
 	r = json_c_visit(iso_639_2_obj, 0, &json_array_visit_userfunc, (void*)language_list_append);
 	if (r) {
-- 
2.43.0


From 62a39024cabd08c50095fe77ea0a293c0938481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:39 +0000
Subject: [PATCH 36/62] fix: report invalid iso-codes numeric codes instead of
 terminating

---
 src/isocodes_lookup.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 58633dc..5d0db05 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -237,6 +237,19 @@ static bool language_list_append(json_object* jso)
 	return true;
 }
 
+static bool parse_numeric(const std::string& str, unsigned int* numeric)
+{
+	// Numeric codes are 3-digit decimal numbers
+	if (str.empty() || str.size() > 3 ||
+		str.find_first_not_of("0123456789") != std::string::npos
+	) {
+		return false;
+	}
+
+	*numeric = std::stoul(str);
+	return true;
+}
+
 static int json_array_visit_userfunc(
 	json_object* jso,
 	int flags,
@@ -345,7 +358,11 @@ static bool build_country_list(json_object* json_root) noexcept
 
 	// Build numeric->country map
 	for (auto&& country : country_list) {
-		country_numeric_map.emplace(std::stoul(country.numeric), country);
+		unsigned int numeric;
+		if (!parse_numeric(country.numeric, &numeric)) {
+			return false;
+		}
+		country_numeric_map.emplace(numeric, country);
 	}
 
 	return true;
@@ -405,7 +422,11 @@ static bool build_currency_list(json_object* json_root) noexcept
 
 	// Build numeric->currency map
 	for (auto&& currency : currency_list) {
-		currency_numeric_map.emplace(std::stoul(currency.numeric), currency);
+		unsigned int numeric;
+		if (!parse_numeric(currency.numeric, &numeric)) {
+			return false;
+		}
+		currency_numeric_map.emplace(numeric, currency);
 	}
 
 	return true;
-- 
2.43.0


From 6d71df1cf68c40935d052fb44782fcc83e2485fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 37/62] fix: empty iso-codes path

---
 src/isocodes_lookup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/isocodes_lookup.cpp b/src/isocodes_lookup.cpp
index 5d0db05..cca5a7f 100644
--- a/src/isocodes_lookup.cpp
+++ b/src/isocodes_lookup.cpp
@@ -506,7 +506,7 @@ int isocodes_init(const char* path)
 	} else {
 		path_str = ISOCODES_JSON_PATH;
 	}
-	if (path_str.back() != '/') {
+	if (path_str.empty() || path_str.back() != '/') {
 		path_str += "/";
 	}
 
-- 
2.43.0


From 93862316c8829457f9366a98d4e99c86a82a5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 38/62] fix: do not disconnect reader that failed to connect

---
 src/pcsc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index eec1720..0f79a58 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -199,8 +199,7 @@ static int pcsc_reader_populate_features(struct pcsc_reader_t* reader)
 	);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardConnect(SCARD_SHARE_DIRECT) failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
-		r = -2;
-		goto exit;
+		return -2;
 	}
 
 	// Request reader features
-- 
2.43.0


From 8b586081ff838461911e6d1675060ebfb081c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 39/62] fix: read beyond PC/SC reader properties

---
 src/pcsc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 0f79a58..92e761c 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -499,8 +499,12 @@ int pcsc_reader_get_property(
 			return 0;
 		}
 
-		tlv += (2 + tlv[1]);
+		if (tlv[1] > tlv_len - 2) {
+			// Ignore remainder of invalid property list
+			break;
+		}
 		tlv_len -= (2 + tlv[1]);
+		tlv += (2 + tlv[1]);
 	}
 
 	// Otherwise, retrieve from IFD_PIN_PROPERTIES
-- 
2.43.0


From aefb3701f9ee1055974f98e9d5f47e0d094241e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:38 +0000
Subject: [PATCH 40/62] fix: disconnect from reader when UID retrieval fails

---
 src/pcsc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pcsc.c b/src/pcsc.c
index 92e761c..48cc042 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -755,6 +755,7 @@ int pcsc_reader_connect(pcsc_reader_ctx_t reader_ctx)
 		);
 		if (r < 0) {
 			// Error during UID retrieval; assume card error
+			pcsc_reader_disconnect(reader);
 			return r;
 		} else if (r > 0) {
 			// Function not supported; assume contact card
-- 
2.43.0


From 2c9ad545eb9185f2e14cfb85bc641e899004be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 41/62] fix: ignore padding of AES cipher block size less one
 byte

---
 tools/print_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index e41caf1..28dcee9 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -435,7 +435,7 @@ static int print_ber_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
@@ -607,7 +607,7 @@ static int print_emv_buf_internal(
 			valid_bytes < len &&
 			(
 				((len & 0x7) == 0 && len - valid_bytes < 8) ||
-				((len & 0xF) == 0 && len - valid_bytes < 15)
+				((len & 0xF) == 0 && len - valid_bytes < 16)
 			)
 		) {
 			for (unsigned int i = 0; i < depth; ++i) {
-- 
2.43.0


From 4f2a5bb3f3a47ae0e53d06db50de461c6874633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 42/62] fix: do not read absent card service data of ATR
 historical bytes

---
 tools/print_helpers.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 28dcee9..7892cb3 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -226,7 +226,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 
 		switch (tlv.tag) {
 			case ISO7816_COMPACT_TLV_CARD_SERVICE_DATA:
-				r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
+				if (tlv.length) {
+					r = iso7816_card_service_data_get_string_list(tlv.value[0], str, sizeof(str));
+				} else {
+					r = -1;
+				}
 				break;
 
 			case ISO7816_COMPACT_TLV_CARD_CAPABILITIES:
-- 
2.43.0


From 158e25e779290c9e5d784c46f5a591f6a0dda13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:42 +0000
Subject: [PATCH 43/62] fix: offset of invalid data inside fields of indefinite
 length

---
 tools/print_helpers.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 7892cb3..2c3ce07 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -371,7 +371,7 @@ static int print_ber_buf_internal(
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			valid_bytes += (const void*)tlv.value - (itr.ptr - r);
 
 			printf("\n");
 			r = print_ber_buf_internal(
@@ -393,6 +393,10 @@ static int print_ber_buf_internal(
 				return valid_bytes;
 			}
 
+			// All bytes of the field are now valid, including end-of-content
+			// octets if the field has indefinite length
+			valid_bytes = itr.ptr - ptr;
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
@@ -543,7 +547,7 @@ static int print_emv_buf_internal(
 		if (iso8825_ber_is_constructed(&tlv)) {
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed
-			valid_bytes += (r - tlv.length);
+			valid_bytes += (const void*)tlv.value - (itr.ptr - r);
 
 			printf("\n");
 			r = print_emv_buf_internal(
@@ -565,6 +569,10 @@ static int print_emv_buf_internal(
 				return valid_bytes;
 			}
 
+			// All bytes of the field are now valid, including end-of-content
+			// octets if the field has indefinite length
+			valid_bytes = itr.ptr - ptr;
+
 		} else {
 			// If the field is not constructed, consider all of the bytes to
 			// be valid BER encoded data
-- 
2.43.0


From cfec4d04ca06c88621dfab61171f37026d98ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 44/62] fix: print BER fields that follow an invalid object
 identifier

---
 tools/print_helpers.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 2c3ce07..25a7842 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -421,16 +421,13 @@ static int print_ber_buf_internal(
 				struct iso8825_oid_t oid;
 
 				r = iso8825_ber_oid_decode(tlv.value, tlv.length, &oid);
-				if (r) {
-					// Failed to decode OID
-					break;
+				if (r == 0) {
+					printf(" {");
+					for (unsigned int i = 0; i < oid.length; ++i) {
+						printf("%s%u", i ? " ": "", oid.value[i]);
+					}
+					printf("}");
 				}
-
-				printf(" {");
-				for (unsigned int i = 0; i < oid.length; ++i) {
-					printf("%s%u", i ? " ": "", oid.value[i]);
-				}
-				printf("}");
 			}
 
 			printf("\n");
-- 
2.43.0


From e04abd4d39e252a2fd1bc374df3bf9d5de1622a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:10 +0000
Subject: [PATCH 45/62] fix: limit recursion when printing nested fields

---
 tools/print_helpers.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 25a7842..8039fdd 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -38,6 +38,9 @@
 #include <stdio.h>
 #include <string.h>
 
+// Maximum depth of nested fields, to limit recursion
+#define PRINT_DEPTH_MAX (256)
+
 static bool str_is_list(const char* str)
 {
 	if (!str || !str[0]) {
@@ -354,6 +357,11 @@ static int print_ber_buf_internal(
 	struct iso8825_tlv_t tlv;
 	char str[1024];
 
+	if (len && depth > PRINT_DEPTH_MAX) {
+		printf("BER nesting too deep"); // Caller to print newline
+		return 0;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		printf("Failed to initialise BER iterator\n");
@@ -516,6 +524,11 @@ static int print_emv_buf_internal(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (len && depth > PRINT_DEPTH_MAX) {
+		printf("BER nesting too deep"); // Caller to print newline
+		return 0;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		printf("Failed to initialise BER iterator\n");
-- 
2.43.0


From 0147793bee9144b8418f34c7e4d9fc0614c1a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:09 +0000
Subject: [PATCH 46/62] fix: no error for ATR without COMPACT-TLV historical
 bytes

---
 tools/print_helpers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/print_helpers.c b/tools/print_helpers.c
index 8039fdd..59767b4 100644
--- a/tools/print_helpers.c
+++ b/tools/print_helpers.c
@@ -206,6 +206,11 @@ void print_atr_historical_bytes(const struct iso7816_atr_info_t* atr_info)
 		return;
 	}
 
+	if (!atr_info->historical_bytes_len) {
+		// No COMPACT-TLV fields
+		return;
+	}
+
 	r = iso7816_compact_tlv_itr_init(
 		atr_info->historical_bytes,
 		atr_info->historical_bytes_len,
-- 
2.43.0


From cc92916aa9b5a10bb634db382f7e6bc425bf29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:46 +0000
Subject: [PATCH 47/62] fix: value of CCD CVR upper cumulative offline amount
 limit bit

---
 src/emv_fields.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_fields.h b/src/emv_fields.h
index 375121e..4f89a8a 100644
--- a/src/emv_fields.h
+++ b/src/emv_fields.h
@@ -407,7 +407,7 @@ enum emv_iad_format_t {
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x80) ///< Card Verification Results (CVR): Lower Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_TXN_CNT_LIMIT_EXCEEDED  (0x40) ///< Card Verification Results (CVR): Upper Offline Transaction Count Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_L_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Lower Cumulative Offline Amount Limit Exceeded
-#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x20) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
+#define EMV_IAD_CCD_CVR_BYTE3_U_OFFLINE_AMOUNT_LIMIT_EXCEEDED   (0x10) ///< Card Verification Results (CVR): Upper Cumulative Offline Amount Limit Exceeded
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT1         (0x08) ///< Card Verification Results (CVR): Issuer-discretionary bit 1
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT2         (0x04) ///< Card Verification Results (CVR): Issuer-discretionary bit 2
 #define EMV_IAD_CCD_CVR_BYTE3_ISSUER_DISCRETIONARY_BIT3         (0x02) ///< Card Verification Results (CVR): Issuer-discretionary bit 3
-- 
2.43.0


From 1580e26980d9b76f572fcf298ce45801ece33d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:47 +0000
Subject: [PATCH 48/62] fix: maximum length of Issuer Authentication Data

---
 src/emv_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_strings.c b/src/emv_strings.c
index c8bcdef..96bae89 100644
--- a/src/emv_strings.c
+++ b/src/emv_strings.c
@@ -5913,7 +5913,7 @@ int emv_issuer_auth_data_get_string_list(
 		return 0;
 	}
 
-	if (iad_len < 8 || iad_len > 32) {
+	if (iad_len < 8 || iad_len > 16) {
 		// Issuer Authentication Data (field 91) must be 8 to 16 bytes.
 		return 1;
 	}
-- 
2.43.0


From c403fbe442021bbc8224aef40eefd0996fb71348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:14 +0000
Subject: [PATCH 49/62] fix: maximum bit rate in description of ATR TA1

---
 src/iso7816.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso7816.c b/src/iso7816.c
index 7475bd6..7dfafc7 100644
--- a/src/iso7816.c
+++ b/src/iso7816.c
@@ -876,7 +876,7 @@ const char* iso7816_atr_TAi_get_string(const struct iso7816_atr_info_t* atr_info
 			atr_info->global.Di,
 			atr_info->global.Fi / atr_info->global.Di,
 			atr_info->global.fmax,
-			((unsigned long)(atr_info->global.fmax * 1000000)) / (atr_info->global.Fi / atr_info->global.Di)
+			((unsigned long)(atr_info->global.fmax * 1000000)) * atr_info->global.Di / atr_info->global.Fi
 		);
 
 		return str;
-- 
2.43.0


From b867f329a93452de66702ca87ee4941c5fdbf352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 50/62] fix: end emv-tool when there is no input for
 application selection

---
 tools/emv-tool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index b332630..685c539 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -825,8 +825,9 @@ int main(int argc, char** argv)
 			}
 			printf("Enter number: ");
 			if (!fgets(s, sizeof(s), stdin)) {
-				printf("Invalid input. Try again.\n");
-				continue;
+				// No further input is possible
+				printf("\nNo application selected\n");
+				goto emv_exit;
 			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
-- 
2.43.0


From e4e2e9d5814a1e3f6a1f9b09935b959498c11398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:55 +0000
Subject: [PATCH 51/62] fix: over-long answer to emv-tool application selection

---
 tools/emv-tool.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 685c539..46ad00c 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -829,6 +829,20 @@ int main(int argc, char** argv)
 				printf("\nNo application selected\n");
 				goto emv_exit;
 			}
+			if (!strchr(s, '\n')) {
+				int c;
+				bool input_too_long = false;
+
+				// Consume remainder of line such that it is not mistaken
+				// for the next answer
+				while ((c = getchar()) != EOF && c != '\n') {
+					input_too_long = true;
+				}
+				if (input_too_long) {
+					printf("Invalid input. Try again.\n");
+					continue;
+				}
+			}
 			r = sscanf(s, "%u", &input);
 			if (r != 1) {
 				printf("Invalid input. Try again.\n");
-- 
2.43.0


From 89d4bf5fd50c1d11e5fb9ba23f920737fc1c8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:25 +0000
Subject: [PATCH 52/62] fix: emv-tool debug source ALL selected no debug source

---
 tools/emv-tool.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 46ad00c..5fc04dc 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -106,6 +106,13 @@ static const char* debug_source_str[] = {
 	"APP",
 	"ALL",
 };
+static const unsigned int debug_source_value[] = {
+	EMV_DEBUG_SOURCE_TTL,
+	EMV_DEBUG_SOURCE_TAL,
+	EMV_DEBUG_SOURCE_EMV,
+	EMV_DEBUG_SOURCE_APP,
+	EMV_DEBUG_SOURCE_ALL,
+};
 static unsigned int debug_sources_mask = EMV_DEBUG_SOURCE_ALL;
 static const char* debug_level_str[] = {
 	"NONE",
@@ -213,8 +220,8 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 					argp_error(state, "Unknown debug source (--debug-source) argument \"%s\"", str);
 				}
 
-				// Found debug source string in list; shift into mask
-				debug_sources_mask |= 1 << i;
+				// Found debug source string in list; add to mask
+				debug_sources_mask |= debug_source_value[i];
 
 				arg = NULL;
 			}
-- 
2.43.0


From 376ea328c11711e83d5d252b3340916ab7513f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 53/62] fix: emv-tool performed the transaction with a refused
 zero amount

---
 tools/emv-tool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index 5fc04dc..b78bff1 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -656,6 +656,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Transaction amount (--txn-amount) argument must be non-zero\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	if (txn_type == EMV_TRANSACTION_TYPE_CASHBACK &&
@@ -663,6 +664,7 @@ int main(int argc, char** argv)
 	) {
 		fprintf(stderr, "Secondary transaction amount (--txn-amount-other) must be non-zero for cashback transaction\n");
 		argp_help(&argp_config, stdout, ARGP_HELP_STD_HELP, argv[0]);
+		return 1;
 	}
 
 	r = emv_strings_init(isocodes_path, mcc_json);
-- 
2.43.0


From 7ddd4cd88b4eaf91abaa2e9a708d26dfed72e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 54/62] fix: emv-tool accepted transaction types and amounts
 that are not numeric digits

---
 tools/emv-tool.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/emv-tool.c b/tools/emv-tool.c
index b78bff1..bd89f31 100644
--- a/tools/emv-tool.c
+++ b/tools/emv-tool.c
@@ -44,6 +44,7 @@
 struct emv_txn_t;
 
 // Helper functions
+static bool is_numeric(const char* str);
 static error_t argp_parser_helper(int key, char* arg, struct argp_state* state);
 static const char* pcsc_get_reader_state_string(unsigned int reader_state);
 static void print_pcsc_readers(pcsc_ctx_t pcsc);
@@ -129,6 +130,13 @@ static char* isocodes_path = NULL;
 static char* mcc_json = NULL;
 
 
+static bool is_numeric(const char* str)
+{
+	// Note that strtoul() also accepts white space, a sign and, for base 16,
+	// letters
+	return str[strspn(str, "0123456789")] == 0;
+}
+
 static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 {
 	switch (key) {
@@ -137,7 +145,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len != 2) {
+			if (arg_len != 2 || !is_numeric(arg)) {
 				argp_error(state, "Transaction type (--txn-type) argument must be 2 numeric digits");
 			}
 
@@ -156,7 +164,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || !is_numeric(arg)) {
 				argp_error(state, "Transaction amount (--txn-amount) argument must be numeric digits");
 			}
 
@@ -179,7 +187,7 @@ static error_t argp_parser_helper(int key, char* arg, struct argp_state* state)
 			unsigned long value;
 			char* endptr = arg;
 
-			if (arg_len == 0) {
+			if (arg_len == 0 || !is_numeric(arg)) {
 				argp_error(state, "Secondary transaction amount (--txn-amount-other) argument must be numeric digits");
 			}
 
-- 
2.43.0


From 290c6d07a6bf8a7bdd16c6859964a4f9277eb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:14 +0000
Subject: [PATCH 55/62] fix: continue with list of AIDs when PSE provides
 invalid SFI

---
 src/emv_tal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 2150389..93487ba 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -137,7 +137,9 @@ int emv_tal_read_pse(
 		r = EMV_TAL_RESULT_PSE_SFI_NOT_FOUND;
 		goto exit;
 	}
-	if (pse_sfi->length != 1 || !pse_sfi->value) {
+	if (pse_sfi->length != 1 || !pse_sfi->value ||
+		pse_sfi->value[0] < 0x01 || pse_sfi->value[0] > 0x1E
+	) {
 		emv_debug_trace_data("pse_sfi=", pse_sfi->value, pse_sfi->length);
 
 		// Invalid SFI for PSE; terminal may continue session
-- 
2.43.0


From 8cec682494ccc1c3c67f15757538ebf3fcdbe828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:15 +0000
Subject: [PATCH 56/62] fix: do not examine content of empty record

---
 src/emv_tal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_tal.c b/src/emv_tal.c
index 93487ba..3f50ecf 100644
--- a/src/emv_tal.c
+++ b/src/emv_tal.c
@@ -797,7 +797,7 @@ static int emv_tal_read_sfi_records(
 
 		// Therefore, any record that is not encoded as field 70 should not be
 		// parsed for EMV fields and invalidates offline data authentication.
-		if (record[0] != EMV_TAG_70_DATA_TEMPLATE) {
+		if (!record_len || record[0] != EMV_TAG_70_DATA_TEMPLATE) {
 			if (afl_entry->sfi >= 1 && afl_entry->sfi <= 10) {
 				// Invalid record for SFIs 1 - 10
 				// EMV 4.4 Book 3, 6.5.11.4
-- 
2.43.0


From 61b428dac3e96492810121e10c7e2c8c7d56593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:08 +0000
Subject: [PATCH 57/62] fix: refuse empty FCI when creating application

---
 src/emv_app.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv_app.c b/src/emv_app.c
index 1046d4e..7721535 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -99,7 +99,7 @@ struct emv_app_t* emv_app_create_from_fci(const void* fci, size_t fci_len)
 
 	// Parse FCI template
 	r = iso8825_ber_decode(fci, fci_len, &tlv);
-	if (r != fci_len) {
+	if (r <= 0 || r != fci_len) {
 		// Parse error
 		goto error;
 	}
-- 
2.43.0


From 5eac36857851de6b7cc171f52cd04f4b8fccbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:31 +0000
Subject: [PATCH 58/62] fix: viewer offsets of fields inside fields of
 indefinite length

---
 viewer/emvhighlighter.cpp | 10 +++++++---
 viewer/emvtreeview.cpp    | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/viewer/emvhighlighter.cpp b/viewer/emvhighlighter.cpp
index f7777cb..5e7db0c 100644
--- a/viewer/emvhighlighter.cpp
+++ b/viewer/emvhighlighter.cpp
@@ -88,8 +88,8 @@ static bool parseBerData(
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed. The fields inside
 			// the value will be added when they are parsed.
-			validBytes += (r - tlv.length);
-			*totalValidBytes += (r - tlv.length);
+			std::size_t headerLength = tlv.value - (static_cast<const uint8_t*>(itr.ptr) - r);
+			*totalValidBytes += headerLength;
 
 			// Recursively parse constructed fields
 			bool valid;
@@ -108,7 +108,11 @@ static bool parseBerData(
 				// processing of the error by recursive callers
 				return false;
 			}
-			validBytes += tlv.length;
+
+			// All bytes of the field are now valid, including end-of-content
+			// octets if the field has indefinite length
+			*totalValidBytes += r - headerLength - tlv.length;
+			validBytes += r;
 
 		} else {
 			// If the field is not constructed, consider all of the bytes to
diff --git a/viewer/emvtreeview.cpp b/viewer/emvtreeview.cpp
index ee34dbd..bf7c8b0 100644
--- a/viewer/emvtreeview.cpp
+++ b/viewer/emvtreeview.cpp
@@ -65,8 +65,8 @@ static bool parseData(
 			// If the field is constructed, only consider the tag and length
 			// to be valid until the value has been parsed. The fields inside
 			// the value will be added when they are parsed.
-			validBytes += (r - tlv.length);
-			*totalValidBytes += (r - tlv.length);
+			unsigned int headerLength = tlv.value - (static_cast<const uint8_t*>(itr.ptr) - r);
+			*totalValidBytes += headerLength;
 
 			// Recursively parse constructed fields
 			bool valid;
@@ -85,7 +85,11 @@ static bool parseData(
 				// processing of the error by recursive callers
 				return false;
 			}
-			validBytes += tlv.length;
+
+			// All bytes of the field are now valid, including end-of-content
+			// octets if the field has indefinite length
+			*totalValidBytes += fieldLength - headerLength - tlv.length;
+			validBytes += fieldLength;
 
 		} else {
 			// If the field is not constructed, consider all of the bytes to
-- 
2.43.0


From aeff67e59b8aade74290e26e480b8935b6a18b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 59/62] fix: viewer classification of characters beyond ASCII

---
 viewer/emv-viewer-mainwindow.cpp |  9 ++++++++-
 viewer/emvhighlighter.cpp        | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/viewer/emv-viewer-mainwindow.cpp b/viewer/emv-viewer-mainwindow.cpp
index b0244e0..8d4aafb 100644
--- a/viewer/emv-viewer-mainwindow.cpp
+++ b/viewer/emv-viewer-mainwindow.cpp
@@ -34,6 +34,13 @@
 
 #include <cctype>
 
+static bool isHexDigit(QChar c)
+{
+	// Characters outside of the unsigned char range are not allowed by
+	// std::isxdigit()
+	return c.unicode() < 0x80 && std::isxdigit(c.unicode());
+}
+
 EmvViewerMainWindow::EmvViewerMainWindow(
 	QWidget* parent,
 	QString overrideData,
@@ -188,7 +195,7 @@ void EmvViewerMainWindow::parseData()
 
 	// Ensure that hex string contains only hex digits
 	for (int i = 0; i < validLen; ++i) {
-		if (!std::isxdigit(str[i].unicode())) {
+		if (!isHexDigit(str[i])) {
 			// Only parse up to invalid digit
 			validLen = i;
 			break;
diff --git a/viewer/emvhighlighter.cpp b/viewer/emvhighlighter.cpp
index 5e7db0c..55808d7 100644
--- a/viewer/emvhighlighter.cpp
+++ b/viewer/emvhighlighter.cpp
@@ -44,6 +44,13 @@ constexpr std::add_const_t<T>& to_const_ref(T& t) noexcept
 template<class T>
 void to_const_ref(const T&&) = delete;
 
+static bool isHexDigit(QChar c)
+{
+	// Characters outside of the unsigned char range are not allowed by
+	// std::isxdigit()
+	return c.unicode() < 0x80 && std::isxdigit(c.unicode());
+}
+
 /**
  * Parse BER data and invoke callback function for each tag
  *
@@ -195,7 +202,7 @@ void EmvHighlighter::parseBlocks()
 
 	// Ensure that hex string contains only hex digits
 	for (unsigned int i = 0; i < hexStrLen; ++i) {
-		if (!std::isxdigit(str[i].unicode())) {
+		if (!isHexDigit(str[i])) {
 			// Only parse up to invalid digit
 			hexStrLen = i;
 			break;
@@ -286,7 +293,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 	} else if (berStrLen <= blockData->startPos) {
 		// All digits are invalid and some may be non-hex as well
 		for (int i = 0; i < text.length(); ++i) {
-			if (std::isxdigit(text[i].unicode())) {
+			if (isHexDigit(text[i])) {
 				setFormat(i, 1, invalidColor);
 			} else {
 				setFormat(i, 1, nonHexFormat);
@@ -297,7 +304,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		// Some digits are invalid
 		unsigned int digitIdx = 0;
 		for (int i = 0; i < text.length(); ++i) {
-			if (std::isxdigit(text[i].unicode())) {
+			if (isHexDigit(text[i])) {
 				if (blockData->startPos + digitIdx < berStrLen) {
 					// Valid digits
 					setFormat(i, 1, QTextCharFormat());
@@ -319,7 +326,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		for (auto&& pos : to_const_ref(tagPositions)) {
 			unsigned int digitIdx = 0;
 			for (int i = 0; i < text.length(); ++i) {
-				if (!std::isxdigit(text[i].unicode())) {
+				if (!isHexDigit(text[i])) {
 					// Ignore non-hex digits
 					continue;
 				}
@@ -339,7 +346,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		for (auto&& pos : to_const_ref(paddingPositions)) {
 			unsigned int digitIdx = 0;
 			for (int i = 0; i < text.length(); ++i) {
-				if (!std::isxdigit(text[i].unicode())) {
+				if (!isHexDigit(text[i])) {
 					// Ignore non-hex digits
 					continue;
 				}
@@ -360,7 +367,7 @@ void EmvHighlighter::highlightBlock(const QString& text)
 		// Apply formatting of selected digits
 		unsigned int digitIdx = 0;
 		for (int i = 0; i < text.length(); ++i) {
-			if (!std::isxdigit(text[i].unicode())) {
+			if (!isHexDigit(text[i])) {
 				// Ignore non-hex digits
 				continue;
 			}
-- 
2.43.0


From d0062b064017c7f98be2d026579036937d0b1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 60/62] fix: limit recursion when viewing nested fields

---
 viewer/emvhighlighter.cpp | 13 ++++++++++++-
 viewer/emvtreeview.cpp    | 11 +++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/viewer/emvhighlighter.cpp b/viewer/emvhighlighter.cpp
index 55808d7..472d22c 100644
--- a/viewer/emvhighlighter.cpp
+++ b/viewer/emvhighlighter.cpp
@@ -44,6 +44,9 @@ constexpr std::add_const_t<T>& to_const_ref(T& t) noexcept
 template<class T>
 void to_const_ref(const T&&) = delete;
 
+// Maximum depth of nested fields, to limit recursion
+static const unsigned int parseDepthMax = 256;
+
 static bool isHexDigit(QChar c)
 {
 	// Characters outside of the unsigned char range are not allowed by
@@ -56,6 +59,7 @@ static bool isHexDigit(QChar c)
  *
  * @param ptr Pointer to buffer
  * @param len Length of buffer
+ * @param depth Depth of recursion
  * @param totalValidBytes[out] Number of BER bytes successfully parsed
  * @param tagFunc Function to invoke for each tag, using tagFunc(offset, tag)
  * @param paddingFunc Function to invoke for each instance of padding,
@@ -70,6 +74,7 @@ static bool parseBerData(
 	const void* ptr,
 	std::size_t len,
 	bool ignorePadding,
+	unsigned int depth,
 	std::size_t* totalValidBytes,
 	TagFuncType tagFunc,
 	PaddingFuncType paddingFunc
@@ -80,6 +85,11 @@ static bool parseBerData(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (len && depth > parseDepthMax) {
+		qDebug("BER nesting too deep; depth=%u", depth);
+		return false;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		qWarning("iso8825_ber_itr_init() failed; r=%d", r);
@@ -104,6 +114,7 @@ static bool parseBerData(
 				tlv.value,
 				tlv.length,
 				ignorePadding,
+				depth + 1,
 				totalValidBytes,
 				tagFunc,
 				paddingFunc
@@ -223,7 +234,7 @@ void EmvHighlighter::parseBlocks()
 	// valid characters
 	tagPositions.clear();
 	paddingPositions.clear();
-	parseBerData(data.constData(), data.size(), m_ignorePadding, &validBytes,
+	parseBerData(data.constData(), data.size(), m_ignorePadding, 0, &validBytes,
 		[this](unsigned int offset, unsigned int tag) {
 			unsigned int length;
 			// Compute tag length
diff --git a/viewer/emvtreeview.cpp b/viewer/emvtreeview.cpp
index bf7c8b0..7fab803 100644
--- a/viewer/emvtreeview.cpp
+++ b/viewer/emvtreeview.cpp
@@ -25,6 +25,9 @@
 
 #include <QtWidgets/QTreeWidgetItemIterator>
 
+// Maximum depth of nested fields, to limit recursion
+static const unsigned int parseDepthMax = 256;
+
 EmvTreeView::EmvTreeView(QWidget* parent)
 : QTreeWidget(parent)
 {
@@ -36,6 +39,7 @@ static bool parseData(
 	unsigned int len,
 	bool ignorePadding,
 	bool decode,
+	unsigned int depth,
 	unsigned int* totalValidBytes
 )
 {
@@ -44,6 +48,11 @@ static bool parseData(
 	struct iso8825_ber_itr_t itr;
 	struct iso8825_tlv_t tlv;
 
+	if (len && depth > parseDepthMax) {
+		qDebug("BER nesting too deep; depth=%u", depth);
+		return false;
+	}
+
 	r = iso8825_ber_itr_init(ptr, len, &itr);
 	if (r) {
 		qWarning("iso8825_ber_itr_init() failed; r=%d", r);
@@ -76,6 +85,7 @@ static bool parseData(
 				tlv.length,
 				ignorePadding,
 				decode,
+				depth + 1,
 				totalValidBytes
 			);
 			if (!valid) {
@@ -146,6 +156,7 @@ unsigned int EmvTreeView::populateItems(const QByteArray& data)
 		data.size(),
 		m_ignorePadding,
 		m_decodeFields,
+		0,
 		&totalValidBytes
 	);
 
-- 
2.43.0


From 16f29375d9d031ac5682b1d9b4f2d5d75d35bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 61/62] fix: ignore missing list when clearing list

---
 src/emv_app.c | 4 ++++
 src/emv_tlv.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/emv_app.c b/src/emv_app.c
index 7721535..24a60ab 100644
--- a/src/emv_app.c
+++ b/src/emv_app.c
@@ -345,6 +345,10 @@ bool emv_app_list_is_empty(const struct emv_app_list_t* list)
 
 void emv_app_list_clear(struct emv_app_list_t* list)
 {
+	if (!list) {
+		return;
+	}
+
 	if (!emv_app_list_is_valid(list)) {
 		list->front = NULL;
 		list->back = NULL;
diff --git a/src/emv_tlv.c b/src/emv_tlv.c
index 29d4fa9..76eb578 100644
--- a/src/emv_tlv.c
+++ b/src/emv_tlv.c
@@ -104,6 +104,10 @@ bool emv_tlv_list_is_empty(const struct emv_tlv_list_t* list)
 
 void emv_tlv_list_clear(struct emv_tlv_list_t* list)
 {
+	if (!list) {
+		return;
+	}
+
 	if (!emv_tlv_list_is_valid(list)) {
 		list->front = NULL;
 		list->back = NULL;
-- 
2.43.0


From 73a93154a36827c636c2bc061ab9111f4a8612a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:02 +0000
Subject: [PATCH 62/62] fix: report running out of memory in pcsc_init()

---
 src/pcsc.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/pcsc.c b/src/pcsc.c
index 48cc042..51b98c3 100644
--- a/src/pcsc.c
+++ b/src/pcsc.c
@@ -109,6 +109,9 @@ int pcsc_init(pcsc_ctx_t* ctx)
 	}
 
 	*ctx = malloc(sizeof(struct pcsc_t));
+	if (!*ctx) {
+		return -1;
+	}
 	pcsc = *ctx;
 	memset(pcsc, 0, sizeof(*pcsc));
 
@@ -130,6 +133,10 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and retrieve the reader list
 	pcsc->reader_strings = malloc(pcsc->reader_strings_size);
+	if (!pcsc->reader_strings) {
+		pcsc_release(ctx);
+		return -1;
+	}
 	result = SCardListReaders(pcsc->context, NULL, pcsc->reader_strings, &pcsc->reader_strings_size);
 	if (result != SCARD_S_SUCCESS) {
 		fprintf(stderr, "SCardListReaders() failed; result=0x%x [%s]\n", (unsigned int)result, pcsc_stringify_error(result));
@@ -147,7 +154,13 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader objects
 	pcsc->readers = calloc(pcsc->reader_count, sizeof(struct pcsc_reader_t));
-	memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
+	if (!pcsc->readers && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
+	if (pcsc->readers) {
+		memset(pcsc->readers, 0, pcsc->reader_count * sizeof(struct pcsc_reader_t));
+	}
 	current_reader_name = pcsc->reader_strings;
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->readers[i].pcsc = pcsc;
@@ -157,7 +170,13 @@ int pcsc_init(pcsc_ctx_t* ctx)
 
 	// Allocate and populate reader states
 	pcsc->reader_states = calloc(pcsc->reader_count, sizeof(SCARD_READERSTATE));
-	memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
+	if (!pcsc->reader_states && pcsc->reader_count) {
+		pcsc_release(ctx);
+		return -1;
+	}
+	if (pcsc->reader_states) {
+		memset(pcsc->reader_states, 0, pcsc->reader_count * sizeof(SCARD_READERSTATE));
+	}
 	for (size_t i = 0; i < pcsc->reader_count; ++i) {
 		pcsc->reader_states[i].szReader = pcsc->readers[i].name;
 		pcsc->reader_states[i].pvUserData = &pcsc->readers[i];
-- 
2.43.0

