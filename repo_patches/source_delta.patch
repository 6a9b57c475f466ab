From 77e1276f999a41754054d8a5fa0d7e8ed080baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 01/14] fix: L2 decoder read one byte past the packet when
 parity fills its last byte

For 48 and 96 byte payloads the parity bits are a whole number of bytes, so
fetching 'the next parity byte' after the last bit read past input_rx_data.
---
 src/horus_l2.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/horus_l2.c b/src/horus_l2.c
index 96cb0d1..b07e39b 100644
--- a/src/horus_l2.c
+++ b/src/horus_l2.c
@@ -304,9 +304,8 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
     unsigned char *pin  = input_rx_data;
     int            ninbit, ingolay, ningolay, paritybyte, nparitybits;
     int            ninbyte, shift, inbit, golayparitybit, i, outbit, outbyte, noutbits, outdata;
-    #if defined(SCRAMBLER) || defined(INTERLEAVER)
     int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(num_payload_data_bytes);
-    #endif
+    unsigned char *pin_end = input_rx_data + num_tx_data_bytes;
     
     /* optional scrambler and interleaver - we dont interleave UW */
 
@@ -368,7 +367,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                 if (i != 10)
                     ingolay <<=1;
                 nparitybits++;
-                if ((nparitybits % 8) == 0) {
+                if (((nparitybits % 8) == 0) && (pin < pin_end)) {
                     /* OK grab a new byte */
                     paritybyte = *pin++;
                     #ifdef DEBUG0
@@ -426,7 +425,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
             if (i != 10)
                 golayparity <<=1;
             nparitybits++;
-            if ((nparitybits % 8) == 0) {
+            if (((nparitybits % 8) == 0) && (pin < pin_end)) {
                 /* OK grab a new byte */
                 paritybyte = *pin++;
                 #ifdef DEBUG0
-- 
2.43.0


From 6648936d7f5cf4e2858c5209292fc0d095039927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 02/14] fix: RTTY sentences with the '*' near the maximum
 length overran the output and bit buffers

The checksum window after '*' extended the packet past its maximum length
(writing up to 125 characters to the 120 character output buffer), the
terminator could be written one past the buffer, and the last character was
read up to nfield-1 bits past the end of rx_bits.
---
 src/horus_api.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..0a868b6 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -336,7 +336,8 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     int st = uw_loc;                                    /* first bit of first char        */
     int en = st + hstates->max_packet_len - nfield;          /* last bit of max length packet  */
 
-    if (en > hstates->rx_bits_len){
+    /* the last character starts before en, and extends up to nfield bits past it */
+    if (en + nfield > hstates->rx_bits_len){
         if (hstates->verbose) {
             fprintf(stderr,"not enough data yet");
         }
@@ -391,7 +392,10 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "  begin endpacket\n");
             }
             // Only process up to the next 5 characters (checksum + line ending)
-            en = i + (ascii_bits+stop_bits+1)*5;
+            // but not beyond the maximum length packet
+            if (i + (ascii_bits+stop_bits+1)*5 < en) {
+                en = i + (ascii_bits+stop_bits+1)*5;
+            }
         }
 
         /* build up output array, really only need up to tx crc but
@@ -405,7 +409,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     /* if we found the end of packet flag and have enough chars to compute checksum ... */
 
     //fprintf(stderr, "\n\ntx CRC...\n");
-    if (endpacket && (pout > (ptx_crc+3))) {
+    if (endpacket && (pout > (ptx_crc+3)) && (nout < horus_get_max_ascii_out_len(hstates))) {
         tx_crc = 0;
         for(i=0; i<4; i++) {
             tx_crc <<= 4;
-- 
2.43.0


From d25478ff9f2717d46cf924c918069ae10dd1df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 03/14] fix: RTTY '$' count looked at stale characters beyond
 the received ones

With fewer than 8 characters before the '*', leftovers in the caller's buffer
were counted as leading '$'s; the checksum length then went negative and
wrapped, reading some 250 bytes past the sentence.
---
 src/horus_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 0a868b6..618947a 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -376,7 +376,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             endpacket = 1;
             rtty_start = 0;
             // Find the end of the $$s
-            for(k = 0; k<8; k++){
+            for(k = 0; k<8 && k<nout; k++){
                 if(ascii_out[k] != 36){
                     rtty_start = k;
                     break;
-- 
2.43.0


From df4e3810fd8ed8d1cde80f9bb47df60f51641046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 04/14] fix: RTTY checksum field with non-hex characters was
 taken as 0xFFFx

hex2int() returns -1 for other characters, so e.g. '$$*zzzz' (empty text, CRC
0xFFFF) was reported as a valid sentence.
---
 src/horus_api.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 618947a..e222715 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -410,15 +410,19 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
 
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3)) && (nout < horus_get_max_ascii_out_len(hstates))) {
+        int crc_is_hex = 1;
         tx_crc = 0;
         for(i=0; i<4; i++) {
+            if (hex2int(ptx_crc[i]) < 0) {
+                crc_is_hex = 0;
+            }
             tx_crc <<= 4;
             tx_crc |= hex2int(ptx_crc[i]);
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = crc_is_hex && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From 5a81b9ac3b8486e2bc6ddcdacec30c55fcf57ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 05/14] fix: fsk_destroy did not free the spectrum average

---
 src/fsk.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fsk.c b/src/fsk.c
index f88bb9c..05c5a09 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -252,6 +252,7 @@ struct FSK * fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, i
 void fsk_destroy(struct FSK *fsk){
     free(fsk->f_dc);
     free(fsk->fft_cfg);
+    free(fsk->Sf);
     free(fsk->stats);
     free(fsk->hann_table);
     free(fsk);
-- 
2.43.0


From 0974180b90494d42394faf958712d66800991277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 06/14] fix: horus_close did not free the soft decision buffer

---
 src/horus_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/horus_api.c b/src/horus_api.c
index e222715..b5f1a79 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -259,6 +259,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From 1e9b733ce6e455fb47aa52399a1d47c96e9402b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 07/14] fix: reject NaN latitude and longitude in
 decode_degree_float

---
 horusdemodlib/delegates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..45eef01 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,8 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    # Written so that a NaN is out of range, too.
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
-- 
2.43.0


From 1a2873e7ede4b195dbfa7de94994275b6425593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 08/14] fix: running() of an inhibited SondeHub uploader
 returns False instead of raising

---
 horusdemodlib/sondehubamateur.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index a8a76e8..cc144eb 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -92,6 +92,9 @@ class SondehubAmateurUploader(object):
         # Record of when we last uploaded a user station position to Sondehub.
         self.last_user_position_upload = 0
 
+        # Not running (yet). This stays that way if uploads are inhibited.
+        self.input_processing_running = False
+
         try:
             # Python 2 check. Python 2 doesnt have gzip.compress so this will throw an exception.
             gzip.compress(b"\x00\x00")
-- 
2.43.0


From faaf616795620cf7b8cba645f93b066f78bc18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 09/14] fix: a line that is not hexadecimal no longer ends the
 uploader

---
 horusdemodlib/uploader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..df0c6c6 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -214,7 +214,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From b6e47e26900b48d210bf2ef72157590581774964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 10/14] fix: the uploader leaves in order when SondeHub uploads
 are disabled

---
 horusdemodlib/uploader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index df0c6c6..3613929 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -286,7 +286,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if not args.noupload:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0


From 4984b83625cbaddb55c40b0e50c4a25c9422a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 11/14] fix: keep minutes below 59 as given when building a
 Horus v2 packet

---
 horusdemodlib/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..0b35b81 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
-- 
2.43.0


From b8d258c21c3782b9dc3a3f700dbea63294072808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 12/14] fix: clip a large descent rate to -327.68 m/s

---
 horusdemodlib/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 0b35b81..820b579 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -283,7 +283,7 @@ class Encoder():
         # Ascent rate is in the range -327.68 to 327.67 m/s
         ascent_rate_100 = int(ascent_rate*100)
         if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
+            ascent_rate_100 = -32768
         elif ascent_rate_100 > 32767:
             ascent_rate_100 = 32767
 
-- 
2.43.0


From 1b62754f30af39238f20950e20cfd554d516da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 13/14] fix: drop packets without a valid altitude in
 telem_to_sondehub instead of raising KeyError

---
 horusdemodlib/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 6d89c32..ada1b60 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -84,7 +84,11 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     # Frame Number
     _output["frame"] = telemetry["sequence_number"]
 
-    # Position
+    # Position - Horus v3 payloads can flag their altitude as invalid, in which case there is no altitude field.
+    if "altitude" not in telemetry:
+        logging.error("SondeHub Data Reformatter - Telemetry contains no valid altitude. Not uploading.")
+        return None
+
     _output["lat"] = telemetry["latitude"]
     _output["lon"] = telemetry["longitude"]
     _output["alt"] = telemetry["altitude"]
-- 
2.43.0


From 95e7f61f073edbb15625717c843ff64b93cf3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 14/14] fix: a custom field entry that is not an object no
 longer aborts the rest of the list

---
 horusdemodlib/payloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b068cb3..7680bb3 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -197,7 +197,7 @@ def parse_custom_field_list(text_data):
         for _payload in _field_data:
             _data = _field_data[_payload]
 
-            if ("struct" in _data) and ("fields" in _data):
+            if isinstance(_data, dict) and ("struct" in _data) and ("fields" in _data):
                 # Check the struct value has the right length
                 try:
                     _structsize = struct.calcsize(_data["struct"])
-- 
2.43.0

