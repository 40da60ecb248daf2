From 427ffab568986dd758207e4a7a32f21b8d076628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:51 +0000
Subject: [PATCH 01/18] fix: decode QZSS ephemeris 1044, IODC is 10 bits wide

The 10-bit IODC field advanced the offset by 8 bits, so the final length
check failed and no 1044 message was ever decoded.
---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From 4c080f8b92418b023a45fa2c6c953fb13144e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:51 +0000
Subject: [PATCH 02/18] fix: count announcements of message 1013 over the
 payload only

When the number of announcements is not given (Nm = 0) it is derived from
the message length. Header and CRC bytes were taken for payload, so such
messages were always rejected.
---
 sub_decoders/RTCM_BASE.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..a1d1617 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,8 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            # Payload only: 3 header bytes and 3 CRC bytes don't count
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From 07133376245eba83890dbf5263c85bbfb2685627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:04 +0000
Subject: [PATCH 03/18] fix: accept empty strings in messages 1007, 1008, 1029
 and 1033

A descriptor or serial number of zero length is legal. Splitting the empty
string by " " yields [''] and int('', 16) raised, so the whole message was
dropped in scaled mode.
---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index a1d1617..e717fec 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -292,7 +292,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From bb8d78c415031d433c63ca3880fb14480acddaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:21 +0000
Subject: [PATCH 04/18] fix: print L5 and S health flags of NavIC ephemeris

The flags were plain class attributes without annotation, hence not fields
of the dataclass and missing in every printed 1041 record.
---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From abda2cd9f380273cf8a405182d541669748b9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:21 +0000
Subject: [PATCH 05/18] fix: resolution of GLONASS code-phase biases is 0.02 m

DF423..DF426 are int16 with 0.02 m resolution (+-655.34 m), RTCM 10403.
The scale factor 0.2 gave biases ten times too large.
---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index e717fec..cc42a12 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -366,10 +366,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From 586bc15a405af21e48cdc0d830bcafaca06b9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:21 +0000
Subject: [PATCH 06/18] fix: accept MSM messages without satellites

The minimal length check subtracted the 3 header bytes from the payload
length, which doesn't include them. Thus an empty message (22 bytes of
payload) was always rejected although the decoder supports it.
---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..9b349eb 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From ec8a245eb9d814422c2532b1efbe99ca15de1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:51 +0000
Subject: [PATCH 07/18] fix: don't drop MSM3 phases of signals next to an
 invalid range

A missing fine range of one signal disabled phase measurements of all the
following signals of the same satellite.
---
 sub_decoders/RTCM_MSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 9b349eb..dad4850 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -606,7 +606,6 @@ class Bare2Scaled:
 
             rng = float(src.sat.rng_rough[sat_idx]) / 1024.0
             rng_ok = src.atr.is_msm1 or src.atr.is_msm3
-            ph_ok = src.atr.is_msm2 or src.atr.is_msm3
 
             # Pass through signals of satellite 'sat'
             i = 0
@@ -621,6 +620,8 @@ class Bare2Scaled:
                 if slotExist == 0:
                     continue
 
+                ph_ok = src.atr.is_msm2 or src.atr.is_msm3
+
                 # Make fine code range
                 if rng_ok:
                     if (src.sgn.rng_fine[sgn_idx] & 0x7FFF) != 0x4000:
-- 
2.43.0


From 7476a2b15114388c51ca2ff3420888e2d671d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:51 +0000
Subject: [PATCH 08/18] fix: consider parsing errors in the final verdict

Printing errors were checked twice and parsing errors never, so a file with
damaged messages finished 'without errors'.
---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From 5f1cfcb38802d314e6231bb7baf7362b9d203e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:51 +0000
Subject: [PATCH 09/18] fix: count lost MARGO rows as printing errors

When a target file can't be created its rows are lost, but the message was
counted as printed and the conversion finished 'without errors'.
---
 printers/margo_printer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..c52090a 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        failed = []
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,10 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            if not self.__append(f, obs_string):
+                failed.append(f)
+
+        assert not failed, f"Observables weren't saved to {failed}"
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0


From 10a249d0dd3e9d1ed6c0b444eac00f2989c34141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 10/18] fix: survive failures while closing output files

Output is buffered, so a full disk may show up only when the files are
closed. The exception left the other files open, aborted the whole batch
and hid the verdict. Close all the files, then report the conversion as
terminated.
---
 printer_top.py            | 10 ++++++++--
 printers/json_printer.py  | 16 +++++++++++-----
 printers/margo_printer.py | 10 +++++++---
 run_conversion.py         | 10 ++++++++--
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/printer_top.py b/printer_top.py
index 0043d01..933d96f 100644
--- a/printer_top.py
+++ b/printer_top.py
@@ -236,7 +236,13 @@ class PrinterTop:
             logger.warning(f"Printer not found, d-block {tp}")
 
     def close(self):
-        """Finalize subprinters"""
+        """Finalize subprinters. Raise an assert if any of them failed."""
 
+        failed = []
         for p in self.printers:
-            p.close()
+            try:
+                p.close()
+            except AssertionError as ae:
+                failed.append(f"{ae.args[0]}")
+
+        assert not failed, "; ".join(failed)
diff --git a/printers/json_printer.py b/printers/json_printer.py
index 1bc0921..747aaf6 100644
--- a/printers/json_printer.py
+++ b/printers/json_printer.py
@@ -155,12 +155,18 @@ class PrintJSON:
 
     def __close(self):
         """Close all opened files"""
-        if len(self.__ofiles):
-            for itm in self.__ofiles.values():
-                if isinstance(itm, io.TextIOWrapper):
-                    itm.write("\r]")
-                    itm.close()
+        failed = []
+        for itm in self.__ofiles.values():
+            if isinstance(itm, io.TextIOWrapper):
+                try:
+                    try:
+                        itm.write("\r]")
+                    finally:
+                        itm.close()
+                except OSError as oe:
+                    failed.append(f"{itm.name}: {type(oe)}: {oe}")
         self.__ofiles = {}
+        assert not failed, f"Output files weren't completed: {failed}"
 
     def __create_ofile(self, msg_num: int):
         """Create new JSON file"""
diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index c52090a..5e5b76e 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -401,11 +401,15 @@ class PrintMARGO:
 
     def __close(self):
         """Close all opened files"""
-        if len(self.__ofiles):
-            for itm in self.__ofiles.values():
-                if isinstance(itm, io.TextIOWrapper):
+        failed = []
+        for itm in self.__ofiles.values():
+            if isinstance(itm, io.TextIOWrapper):
+                try:
                     itm.close()
+                except OSError as oe:
+                    failed.append(f"{itm.name}: {type(oe)}: {oe}")
         self.__ofiles = {}
+        assert not failed, f"Output files weren't completed: {failed}"
 
     def __create_ofile(self, oname: str) -> bool:
         """Create new MARGO file and fill header"""
diff --git a/run_conversion.py b/run_conversion.py
index c18f3ca..b1ece1d 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -101,6 +101,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
     """Convert single file."""
 
     f = None
+    released = True
 
     try:
         f = open(fpath, "rb")
@@ -145,7 +146,12 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         logger.error(f"{type(ex)}: {ex}")
         return False
     finally:
-        converter.release()
+        try:
+            converter.release()
+        except Exception as ex:
+            logger.error("Output products are incomplete.")
+            logger.error(f"{type(ex)}: {ex}")
+            released = False
 
         if not f is None:
             logger.info(f"Closing file {fpath}.")
@@ -153,7 +159,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         else:
             logger.info(f"Source file {fpath} wasn't opened.")
 
-    return True
+    return released
 
 
 # ............................................................................
-- 
2.43.0


From 2eb8a10f5908b427af5cec62c4831e807dde6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 11/18] fix: convert files even if the log file can't be
 written

Only opening of the log file was guarded. A failure to write the first
lines or to open the file again aborted the whole batch.
---
 run_conversion.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/run_conversion.py b/run_conversion.py
index b1ece1d..1258f03 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -86,12 +86,16 @@ def init_logger(path: str):
     else:
         # Initial record
         welcome_msg = "New log file was created."
-        log.write(welcome_msg + "\n")
-        log.write("-" * len(welcome_msg) + "\n")
-        log.close()
-        print(welcome_msg)
-        # Init logger. Opens file 'path' in append mode
-        logger.init_2CH(path, "RTCMDEC")
+        try:
+            with log:
+                log.write(welcome_msg + "\n")
+                log.write("-" * len(welcome_msg) + "\n")
+            print(welcome_msg)
+            # Init logger. Opens file 'path' in append mode
+            logger.init_2CH(path, "RTCMDEC")
+        except OSError as er:
+            print("Failed to init logger.")
+            print(f"{type(er)}: {er}")
 
 
 # ............................................................................
-- 
2.43.0


From d2e2721f13a25280a12eb1f4fd4afa3ce0d378e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:39 +0000
Subject: [PATCH 12/18] fix: recover messages behind a damaged header at the
 end of file

A false or damaged header makes the parser wait for the claimed number of
bytes. At the end of file they never come and all the intact messages
behind such a header were lost. Drain the parser at the end of input. Also
don't divide by zero if the file was empty when its size was taken.
---
 converter_top.py  |  7 +++++++
 decoder_top.py    | 13 +++++++++++++
 run_conversion.py | 15 +++++++++------
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/converter_top.py b/converter_top.py
index f78b538..1c62f8f 100644
--- a/converter_top.py
+++ b/converter_top.py
@@ -87,6 +87,10 @@ class ConverterInterface(ABC):
     def parse_bytes(self, buf: bytes) -> list[bytes]:
         """Extract RTCM messages from input bytes"""
 
+    def flush(self) -> list[bytes]:
+        """Extract RTCM messages left in the buffer at the end of input"""
+        return []
+
     @abstractmethod
     def decode(self, message: bytes) -> object | None:
         """Process RTCM message in accordance with instance rules."""
@@ -114,6 +118,9 @@ class Converter(ConverterInterface):
     def parse_bytes(self, buf: bytes) -> list[bytes]:
         return self.decoder.catch_message(buf)
 
+    def flush(self) -> list[bytes]:
+        return self.decoder.flush()
+
     def decode(self, message: bytes) -> object:
         return self.decoder.decode(message)
 
diff --git a/decoder_top.py b/decoder_top.py
index de18ed5..57ac91f 100644
--- a/decoder_top.py
+++ b/decoder_top.py
@@ -270,6 +270,19 @@ class DecoderTop:
 
         return ret_list
 
+    def flush(self) -> list[bytes]:
+        """Finish parsing when there are no more bytes in the flow.
+
+        A header waiting for the bytes which will never come is a false or damaged one.
+        Skip it and return the messages hidden behind, if any."""
+
+        ret_list = []
+        while self._tail:
+            self._tail = self._tail[1:]
+            ret_list.extend(self.catch_message(b""))
+
+        return ret_list
+
     # ................................................................................
 
     def __rebase_to_D3(self):
diff --git a/run_conversion.py b/run_conversion.py
index 1258f03..f19378e 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -114,11 +114,16 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         file_size = os.path.getsize(fpath)
         bytes_processed = 0
 
-        chunk = f.read(FILE_CHUNCK_LEN)
-        while len(chunk):
+        end_of_file = False
+        while not end_of_file:
 
+            chunk = f.read(FILE_CHUNCK_LEN)
+            end_of_file = len(chunk) == 0
             bytes_processed += len(chunk)
-            rtcm3_lines = converter.parse_bytes(chunk)
+            if end_of_file:
+                rtcm3_lines = converter.flush()
+            else:
+                rtcm3_lines = converter.parse_bytes(chunk)
 
             for msg in rtcm3_lines:
                 xblock = converter.decode(msg)
@@ -128,7 +133,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
             aux_data = converter.get_statistics()
             logger.progress(
                 "{0:2.2%}, {1:d} messages, prs-dec-prnt errors {2:d}-{3:d}-{4:d}.".format(
-                    float(bytes_processed) / float(file_size),
+                    float(bytes_processed) / float(file_size or 1),
                     aux_data.decoding_attempts,
                     aux_data.parsing_errors,
                     aux_data.decoding_errors,
@@ -136,8 +141,6 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
                 )
             )
 
-            chunk = f.read(FILE_CHUNCK_LEN)
-
     except KeyboardInterrupt:
         logger.error("Processing terminated by the user.")
         return False
-- 
2.43.0


From 7e893f410cd2c1bf7a154de982ca7fba13a55118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 13/18] fix: don't crash on damaged configuration files

Syntax errors, wrong encoding or incorrect values in an ini file raised an
exception in main(). Keep the previous controls if an additional file is
damaged; refuse to convert if the default one is.
---
 controls.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/controls.py b/controls.py
index 14948d3..e89e93e 100644
--- a/controls.py
+++ b/controls.py
@@ -8,6 +8,7 @@
 # pylint: disable = invalid-name
 
 from configparser import ConfigParser
+from configparser import Error as ConfigError
 from printers import MargoControls
 from printers import JSONControls
 
@@ -43,13 +44,32 @@ class ConverterControls:
 
     def _read_ini(self, ini_file: str) -> bool:
         """Read *ini file. Return true if there is something in it."""
-        self.__ini.read(ini_file)
+        try:
+            self.__ini.read(ini_file)
+        except (ConfigError, UnicodeDecodeError, OSError) as er:
+            print(f"INI file {ini_file} is corrupted. {type(er)}: {er}")
+            return False
+
         rv = len(self.__ini.sections()) != 0
         if not rv:
             print(f"INI file {ini_file} is corrupted or empty.")
 
         return rv
 
+    @staticmethod
+    def _reject_incorrect_values(func):
+        """Decorator. Controls with incorrect values are not accepted"""
+
+        def wrapper(self) -> bool:
+            try:
+                return func(self)
+            except (ConfigError, ValueError) as er:
+                print(f"Incorrect control value. {type(er)}: {er}")
+                return False
+
+        return wrapper
+
+    @_reject_incorrect_values
     def _make_MARGO(self) -> bool:
         """Compose controls for MARGO printer"""
         if not self.__ini_ok:
@@ -100,6 +120,7 @@ class ConverterControls:
         self.__MARGO = res
         return True
 
+    @_reject_incorrect_values
     def _make_JSON(self) -> bool:
         """Compose controls for JSON printer"""
         if not self.__ini_ok:
-- 
2.43.0


From 6e094073091720fbaaa58302c7d88bf5506919c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:11 +0000
Subject: [PATCH 14/18] fix: find source files in folders with special
 characters in the name

Folder names like 'data[1]' were interpreted as glob patterns.
---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index f19378e..1e05793 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -266,7 +266,7 @@ def make_list_of_source_files(
     else:
         fpattern = ".".join(["*", rtcm_ext])
         path = os.path.abspath(f_arguments[0])
-        pattern = os.path.join(path, fpattern)
+        pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
         file_list = glob.glob(pattern)
         if 0 == len(file_list):
-- 
2.43.0


From 3f0c3a6dc69364800728162d39ee4ce24e5dd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:30 +0000
Subject: [PATCH 15/18] fix: estimated length of MSM2 and MSM3 messages

A cell takes 27 bits in MSM2 (22+4+1) and 42 bits in MSM3 (15+22+4+1), see
__BIT_WIDTH_2 and __BIT_WIDTH_3. The estimates were one bit per cell longer
and almost all messages were rejected.
---
 sub_decoders/RTCM_MSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index dad4850..dbb5e01 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,10 +273,10 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From fe033e3e889c41a91586ea3ab459be981f267032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:48 +0000
Subject: [PATCH 16/18] fix: report the verdict to the console when there is no
 log file

---
 logger.py         | 16 ++++++++++------
 run_conversion.py |  4 ++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/logger.py b/logger.py
index eab0907..0c10477 100644
--- a/logger.py
+++ b/logger.py
@@ -21,7 +21,8 @@ class LoggerConsFile:
         self.ready = False
 
     def init_2CH(self, file_name="default_log.txt", logger_id="LogDcd"):
-        """Create Logger() instance and setup logging parameters"""
+        """Create Logger() instance and setup logging parameters.
+        If 'file_name' is None, messages are shown in the console only."""
 
         assert not self.ready, "Logger already exists. Deinit first, then setup anew."
 
@@ -40,14 +41,17 @@ class LoggerConsFile:
         _c_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
         _c_handler.setFormatter(_c_format)
 
-        _f_handler = logging.FileHandler(file_name, mode="a")
-        _f_handler.setLevel(logging.INFO)
-        _f_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
-        _f_handler.setFormatter(_f_format)
+        _f_handler = None
+        if file_name is not None:
+            _f_handler = logging.FileHandler(file_name, mode="a")
+            _f_handler.setLevel(logging.INFO)
+            _f_format = logging.Formatter("%(name)s:%(levelname)s: %(message)s")
+            _f_handler.setFormatter(_f_format)
 
         # Add handlers to the logger
         self.logger.addHandler(_c_handler)
-        self.logger.addHandler(_f_handler)
+        if _f_handler is not None:
+            self.logger.addHandler(_f_handler)
 
         # Global severity level affects _c and _f handlers.
         # Allow minimum severity.
diff --git a/run_conversion.py b/run_conversion.py
index 1e05793..6c3296d 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -97,6 +97,10 @@ def init_logger(path: str):
             print("Failed to init logger.")
             print(f"{type(er)}: {er}")
 
+    # There is no log file. Keep reporting to the console.
+    if not logger.ready:
+        logger.init_2CH(None, "RTCMDEC")
+
 
 # ............................................................................
 
-- 
2.43.0


From e5aa5d86ba376dddc9c1a69a5af7f24d145a1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 17/18] fix: user's frequency literal overrides default
 whatever its spelling (R05, 5)

---
 controls.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controls.py b/controls.py
index e89e93e..d95e7c9 100644
--- a/controls.py
+++ b/controls.py
@@ -87,10 +87,12 @@ class ConverterControls:
         lt = {}
         mask: int = 0
 
-        keys = set(self.__ini["LITERALS"])
+        # Keep the order of reading: another spelling of the same satellite
+        # (R05, 5), given by user, has to override default one.
+        keys = list(self.__ini["LITERALS"])
         # 'keys' collects garbage from 'DEFAULT'
         if "DEFAULT" in self.__ini.sections():
-            keys = keys - set(self.__ini["DEFAULT"])
+            keys = [k for k in keys if k not in self.__ini["DEFAULT"]]
 
         for key in keys:
             sat = int(key.strip("rR"))
-- 
2.43.0


From 7d7d9a9b51b7aef80adbc0f129f319118f4fdfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:10 +0000
Subject: [PATCH 18/18] fix: don't take lack of memory for a defect of a
 message

A MemoryError raised while a frame was checked or a message was decoded has been
swallowed by the exception filters. The message was lost, in most cases it
wasn't counted as an error and the file was reported as finished without errors.
Let it go up: processing of the file is terminated and reported as such.
---
 decoder_top.py    | 3 +++
 utilities/bits.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/decoder_top.py b/decoder_top.py
index 57ac91f..6820e87 100644
--- a/decoder_top.py
+++ b/decoder_top.py
@@ -144,6 +144,9 @@ def catch_decoder_exceptions(func):
             rv = func(*args, **kwargs)
         except ExceptionDecoderDecode as de:
             logger.warning(de.args[0])
+        except MemoryError:
+            # Nothing wrong with the message, so it can't be skipped.
+            raise
         except Exception as ex:  # pylint: disable = broad-exception-caught
             logger.error(f"{type(ex)}: {ex}")
 
diff --git a/utilities/bits.py b/utilities/bits.py
index 1425472..8f6936a 100644
--- a/utilities/bits.py
+++ b/utilities/bits.py
@@ -30,6 +30,9 @@ def catch_bits_exceptions(func):
             rv = func(*args, **kwargs)
         except ExceptionBitsError as be:
             be.process()
+        except MemoryError:
+            # Nothing wrong with the data, so it can't be rejected.
+            raise
         except Exception as ex:
             logger.error(f"{type(ex)}: {ex}")
         else:
-- 
2.43.0

