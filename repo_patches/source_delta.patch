From 2ccdb8c0115d37ad9cadb1b38c60079d0da65845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 01/13] fix: hashCode of messages without fields recursed
 forever

The 28 empty messages returned this.hashCode() from hashCode().
---
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend041.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend042.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend043.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend044.java | 2 +-
 .../java/com/finproto/bjse/trade/messages/ConfirmExtend045.java | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend041.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend042.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend043.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend044.java   | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Extend045.java   | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder041.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder042.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder043.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder044.java     | 2 +-
 .../com/finproto/bjse/trade/messages/ExtendNewOrder045.java     | 2 +-
 .../main/java/com/finproto/bjse/trade/messages/Heartbeat.java   | 2 +-
 .../java/com/finproto/bjse/trade/messages/QuoteExtend071.java   | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureCofirmExtend061.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend060.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureConfirmExtend061.java       | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend060.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportAckExtend061.java     | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend060.java        | 2 +-
 .../bjse/trade/messages/TradeCaptureReportExtend061.java        | 2 +-
 .../src/main/java/com/finproto/sample/messages/EmptyPacket.java | 2 +-
 .../src/main/java/com/finproto/sse/bin/messages/Heartbeat.java  | 2 +-
 .../src/main/java/com/finproto/szse/bin/messages/Heartbeat.java | 2 +-
 28 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
index 4337fd1..0a9e43c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend041.java
@@ -14,7 +14,7 @@ public class ConfirmExtend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
index 373f9d0..578fd66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend042.java
@@ -14,7 +14,7 @@ public class ConfirmExtend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
index 49d18a2..4d0ebeb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend043.java
@@ -14,7 +14,7 @@ public class ConfirmExtend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
index 609f670..af9e27f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend044.java
@@ -14,7 +14,7 @@ public class ConfirmExtend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
index 2c41e8c..764c0f4 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ConfirmExtend045.java
@@ -14,7 +14,7 @@ public class ConfirmExtend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
index 3a7dc0a..f4958a3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend041.java
@@ -14,7 +14,7 @@ public class Extend041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
index 491766d..7353ef7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend042.java
@@ -14,7 +14,7 @@ public class Extend042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
index de963cd..3fcfd6f 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend043.java
@@ -14,7 +14,7 @@ public class Extend043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
index aa23b27..0b6b066 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend044.java
@@ -14,7 +14,7 @@ public class Extend044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
index 4086ae8..dedda75 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Extend045.java
@@ -14,7 +14,7 @@ public class Extend045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
index 400bdd0..e58bdcc 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder041.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder041 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
index eef02f0..bad5f0e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder042.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder042 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
index 01f43f9..80c9bb2 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder043.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder043 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
index 253e558..03c4c31 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder044.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder044 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
index c89907e..e9c1e66 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExtendNewOrder045.java
@@ -14,7 +14,7 @@ public class ExtendNewOrder045 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
index c90284b..32223c6 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
index 79019eb..498a774 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteExtend071.java
@@ -14,7 +14,7 @@ public class QuoteExtend071 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
index 932549e..01ff4f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
index 5c23cec..23034b3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureCofirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
index 2fb2ab9..a489dec 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
index df3faa7..eadab1c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirmExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureConfirmExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
index bb63a9d..a77a391 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
index 243d0e8..d355914 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAckExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportAckExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
index 8bc38be..151ec61 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend060.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend060 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
index ddd9f60..768555b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportExtend061.java
@@ -14,7 +14,7 @@ public class TradeCaptureReportExtend061 implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
index 765c155..3ec186a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/EmptyPacket.java
@@ -14,7 +14,7 @@ public class EmptyPacket implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
index 988f970..5626874 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
index 92acb8d..ea9135f 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Heartbeat.java
@@ -14,7 +14,7 @@ public class Heartbeat implements BinaryCodec {
 
   @Override
   public int hashCode() {
-    return this.hashCode();
+    return getClass().hashCode();
   }
 
   @Override
-- 
2.43.0


From 93aecdb437242b9ecf1e337b8aea39ef621ad207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 02/13] fix: register the SSE_BIN and SZSE_BIN checksum
 services

SseBinary and SzseBinary look them up by name and silently sent no checksum.
---
 .../main/java/com/finproto/codec/ChecksumServiceFactory.java    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index b4947d7..0fb10a5 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -15,6 +15,8 @@ public enum ChecksumServiceFactory {
   private ChecksumServiceFactory() {
     registry(new Crc16ChecksumService());
     registry(new Crc32ChecksumService());
+    registry(new SseBinChecksumService());
+    registry(new SzseBinChecksumService());
   }
 
   public void removeChecksumService(String name) {
-- 
2.43.0


From 4d640b19004ac92f3d0803f83aaaa7c7a4508660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 03/13] fix: compute the frame checksum over this frame only

The checksum covered everything readable in the buffer, including frames
encoded before this one.
---
 .../main/java/com/finproto/sample/messages/RootPacket.java  | 6 +++++-
 .../main/java/com/finproto/sse/bin/messages/SseBinary.java  | 6 +++++-
 .../java/com/finproto/szse/bin/messages/SzseBinary.java     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 1cafb0c..355050d 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -50,6 +50,7 @@ public class RootPacket implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeShortLE(this.msgType);
     int payloadLenPos = byteBuf.writerIndex();
     byteBuf.writeIntLE(0);
@@ -64,7 +65,10 @@ public class RootPacket implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("CRC32");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeIntLE(this.checksum);
   }
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 6827a93..0cc1acb 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -59,6 +59,7 @@ public class SseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     byteBuf.writeLong(this.msgSeqNum);
     int msgBodyLenPos = byteBuf.writerIndex();
@@ -74,7 +75,10 @@ public class SseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index a064023..e1a5d52 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -50,6 +50,7 @@ public class SzseBinary implements BinaryCodec {
 
   @Override
   public void encode(ByteBuf byteBuf) {
+    int frameStart = byteBuf.writerIndex();
     byteBuf.writeInt(this.msgType);
     int bodyLengthPos = byteBuf.writerIndex();
     byteBuf.writeInt(0);
@@ -64,7 +65,10 @@ public class SzseBinary implements BinaryCodec {
     ChecksumService<ByteBuf, Integer> checksumService =
         ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");
     if (checksumService != null) {
-      this.checksum = (int) checksumService.calc(byteBuf);
+      this.checksum =
+          (int)
+              checksumService.calc(
+                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
     }
     byteBuf.writeInt(this.checksum);
   }
-- 
2.43.0


From f53e317922a621ce7220ec8f0172ae0ad91923be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 04/13] fix: read 16-bit group and text lengths as unsigned

Lengths above 32767 were read as negative, so the group or text was taken
as absent and its content was misread as the following fields.
---
 .../bjse/trade/messages/PlatformInfo.java     |  2 +-
 .../bjse/trade/messages/QuoteResponse.java    |  2 +-
 .../messages/QuoteStatusReportExtend070.java  |  2 +-
 .../trade/messages/ReportSynchronization.java |  2 +-
 .../finproto/sample/messages/BasicPacket.java | 22 +++++++++----------
 .../sample/messages/NestedPacket.java         |  4 ++--
 .../sample/messages/StringPacket.java         | 20 ++++++++---------
 .../finproto/sample/messages/SubPacket.java   |  2 +-
 .../sse/bin/messages/ExecRptInfo.java         |  4 ++--
 .../sse/bin/messages/ExecRptSync.java         |  2 +-
 .../sse/bin/messages/ExecRptSyncRsp.java      |  2 +-
 11 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index ff194c1..127c197 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -43,7 +43,7 @@ public class PlatformInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
-    short noPartitionsSize = byteBuf.readShortLE();
+    int noPartitionsSize = byteBuf.readUnsignedShortLE();
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index 07fffbd..ce4b122 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -245,7 +245,7 @@ public class QuoteResponse implements BinaryCodec {
     this.validUntilTime = byteBuf.readLongLE();
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
-    short quote2Size = byteBuf.readShortLE();
+    int quote2Size = byteBuf.readUnsignedShortLE();
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index 8c2e0ae..ea92074 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -153,7 +153,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.cashMargin = readFixedString(byteBuf, 1);
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
-    short quote1Size = byteBuf.readShortLE();
+    int quote1Size = byteBuf.readUnsignedShortLE();
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 5e50c56..2c545f0 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -32,7 +32,7 @@ public class ReportSynchronization implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short reportPartitionSyncSize = byteBuf.readShortLE();
+    int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index 43445e1..b80c25f 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -323,77 +323,77 @@ public class BasicPacket implements BinaryCodec {
     this.fieldU64 = byteBuf.readLongLE();
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
-    short fieldI8ListSize = byteBuf.readShortLE();
+    int fieldI8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
         this.fieldI8List.add(byteBuf.readByte());
       }
     }
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
         this.fieldI16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldI32ListSize = byteBuf.readShortLE();
+    int fieldI32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
         this.fieldI32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldI64ListSize = byteBuf.readShortLE();
+    int fieldI64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
         this.fieldI64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldCharListSize = byteBuf.readShortLE();
+    int fieldCharListSize = byteBuf.readUnsignedShortLE();
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
         this.fieldCharList.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldU8ListSize = byteBuf.readShortLE();
+    int fieldU8ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
         this.fieldU8List.add(byteBuf.readByte());
       }
     }
-    short fieldU16ListSize = byteBuf.readShortLE();
+    int fieldU16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
         this.fieldU16List.add(byteBuf.readShortLE());
       }
     }
-    short fieldU32ListSize = byteBuf.readShortLE();
+    int fieldU32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
         this.fieldU32List.add(byteBuf.readIntLE());
       }
     }
-    short fieldU64ListSize = byteBuf.readShortLE();
+    int fieldU64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
         this.fieldU64List.add(byteBuf.readLongLE());
       }
     }
-    short fieldF32ListSize = byteBuf.readShortLE();
+    int fieldF32ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
         this.fieldF32List.add(byteBuf.readFloatLE());
       }
     }
-    short fieldF64ListSize = byteBuf.readShortLE();
+    int fieldF64ListSize = byteBuf.readUnsignedShortLE();
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 35d56a4..5530162 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -56,7 +56,7 @@ public class NestedPacket implements BinaryCodec {
       this.subPacket = new SubPacket();
     }
     this.subPacket.decode(byteBuf);
-    short subPacketListSize = byteBuf.readShortLE();
+    int subPacketListSize = byteBuf.readUnsignedShortLE();
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -139,7 +139,7 @@ public class NestedPacket implements BinaryCodec {
     @Override
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
-      short fieldI16ListSize = byteBuf.readShortLE();
+      int fieldI16ListSize = byteBuf.readUnsignedShortLE();
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7433f9b..7d5cf74 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -209,12 +209,12 @@ public class StringPacket implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short fieldDynamicStringLen = byteBuf.readShortLE();
+    int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
     }
-    short fieldDynamicString1Len = byteBuf.readShortLE();
+    int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
@@ -223,11 +223,11 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
-    short fieldDynamicStringListSize = byteBuf.readShortLE();
+    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
-        short fieldDynamicStringListLen = byteBuf.readShortLE();
+        int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
               byteBuf
@@ -236,11 +236,11 @@ public class StringPacket implements BinaryCodec {
         }
       }
     }
-    short fieldDynamicString1ListSize = byteBuf.readShortLE();
+    int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
-        short fieldDynamicString1ListLen = byteBuf.readShortLE();
+        int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
               byteBuf
@@ -249,28 +249,28 @@ public class StringPacket implements BinaryCodec {
         }
       }
     }
-    short fieldFixedString1ListSize = byteBuf.readShortLE();
+    int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
         this.fieldFixedString1List.add(readFixedString(byteBuf, 1, '0', true));
       }
     }
-    short fieldFixedString10ListSize = byteBuf.readShortLE();
+    int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
         this.fieldFixedString10List.add(readFixedString(byteBuf, 10, '0', true));
       }
     }
-    short fieldFixedString10ListPadSize = byteBuf.readShortLE();
+    int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
         this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false));
       }
     }
-    short fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readShortLE();
+    int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index 5de2656..fd11a55 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -43,7 +43,7 @@ public class SubPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
-    short fieldI16ListSize = byteBuf.readShortLE();
+    int fieldI16ListSize = byteBuf.readUnsignedShortLE();
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 8d6906a..3ad1f94 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -60,14 +60,14 @@ public class ExecRptInfo implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
-    short pbuSize = byteBuf.readShort();
+    int pbuSize = byteBuf.readUnsignedShort();
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
         this.pbu.add(readFixedString(byteBuf, 8));
       }
     }
-    short setIdSize = byteBuf.readShort();
+    int setIdSize = byteBuf.readUnsignedShort();
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 200e8f8..5bca71f 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -32,7 +32,7 @@ public class ExecRptSync implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncSize = byteBuf.readShort();
+    int subExecRptSyncSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index e77621b..246c39e 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -32,7 +32,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    short subExecRptSyncRspSize = byteBuf.readShort();
+    int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
-- 
2.43.0


From 49ccc184f3c9885840c237a54136bdc0ca5dc4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 05/13] fix: keep empty elements of text groups when decoding

---
 .../main/java/com/finproto/sample/messages/StringPacket.java  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 7d5cf74..8ff74c8 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -233,6 +233,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
                   .toString());
+        } else {
+          this.fieldDynamicStringList.add("");
         }
       }
     }
@@ -246,6 +248,8 @@ public class StringPacket implements BinaryCodec {
               byteBuf
                   .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
                   .toString());
+        } else {
+          this.fieldDynamicString1List.add("");
         }
       }
     }
-- 
2.43.0


From 56dfa3245784f73bcd1e8f43678443c061fb0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 06/13] fix: clear absent groups and texts when decoding into a
 used message

A zero length left the value of an earlier decode in place.
---
 .../finproto/bjse/trade/messages/PlatformInfo.java    |  1 +
 .../finproto/bjse/trade/messages/QuoteResponse.java   |  1 +
 .../trade/messages/QuoteStatusReportExtend070.java    |  1 +
 .../bjse/trade/messages/ReportSynchronization.java    |  1 +
 .../com/finproto/risk/bin/messages/CancelReject.java  |  4 ++++
 .../finproto/risk/bin/messages/ExecutionReport.java   |  3 +++
 .../java/com/finproto/risk/bin/messages/NewOrder.java |  4 ++++
 .../com/finproto/risk/bin/messages/OrderCancel.java   |  5 +++++
 .../com/finproto/risk/bin/messages/OrderConfirm.java  |  4 ++++
 .../com/finproto/risk/bin/messages/RiskResult.java    |  2 ++
 .../com/finproto/sample/messages/BasicPacket.java     | 11 +++++++++++
 .../com/finproto/sample/messages/NestedPacket.java    |  2 ++
 .../com/finproto/sample/messages/StringPacket.java    |  8 ++++++++
 .../java/com/finproto/sample/messages/SubPacket.java  |  1 +
 .../com/finproto/sse/bin/messages/ExecRptInfo.java    |  2 ++
 .../com/finproto/sse/bin/messages/ExecRptSync.java    |  1 +
 .../com/finproto/sse/bin/messages/ExecRptSyncRsp.java |  1 +
 .../com/finproto/szse/bin/messages/Extend206302.java  |  1 +
 .../com/finproto/szse/bin/messages/PlatformInfo.java  |  1 +
 .../szse/bin/messages/ReportSynchronization.java      |  1 +
 20 files changed, 55 insertions(+)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
index 127c197..7704519 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java
@@ -44,6 +44,7 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShortLE();
     int noPartitionsSize = byteBuf.readUnsignedShortLE();
+    this.noPartitions = null;
     if (noPartitionsSize > 0) {
       this.noPartitions = new ArrayList<>();
       for (int i = 0; i < noPartitionsSize; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index ce4b122..e9baa7e 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -246,6 +246,7 @@ public class QuoteResponse implements BinaryCodec {
     this.quoteType = byteBuf.readByte();
     this.priceType = byteBuf.readByte();
     int quote2Size = byteBuf.readUnsignedShortLE();
+    this.quote2 = null;
     if (quote2Size > 0) {
       this.quote2 = new ArrayList<>();
       for (int i = 0; i < quote2Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
index ea92074..d60b47c 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReportExtend070.java
@@ -154,6 +154,7 @@ public class QuoteStatusReportExtend070 implements BinaryCodec {
     this.counterPartyPbuid = readFixedString(byteBuf, 6);
     this.memo = readFixedString(byteBuf, 120);
     int quote1Size = byteBuf.readUnsignedShortLE();
+    this.quote1 = null;
     if (quote1Size > 0) {
       this.quote1 = new ArrayList<>();
       for (int i = 0; i < quote1Size; i++) {
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
index 2c545f0..e0bd597 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ReportSynchronization.java
@@ -33,6 +33,7 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int reportPartitionSyncSize = byteBuf.readUnsignedShortLE();
+    this.reportPartitionSync = null;
     if (reportPartitionSyncSize > 0) {
       this.reportPartitionSync = new ArrayList<>();
       for (int i = 0; i < reportPartitionSyncSize; i++) {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index 923489e..e3bb4af 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -94,20 +94,24 @@ public class CancelReject implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int origClOrdIdLen = byteBuf.readInt();
+    this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 2cadc59..b550d73 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -97,15 +97,18 @@ public class ExecutionReport implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int ordCnfmIdLen = byteBuf.readInt();
+    this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 78dcf79..a4e1c21 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -123,15 +123,18 @@ public class NewOrder implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int securityIdLen = byteBuf.readInt();
+    this.securityId = null;
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
     }
@@ -140,6 +143,7 @@ public class NewOrder implements BinaryCodec {
     this.orderQty = byteBuf.readLong();
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
+    this.account = null;
     if (accountLen > 0) {
       this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 458743d..8c74abd 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -100,25 +100,30 @@ public class OrderCancel implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int origClOrdIdLen = byteBuf.readInt();
+    this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
           byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     int securityIdLen = byteBuf.readInt();
+    this.securityId = null;
     if (securityIdLen > 0) {
       this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 2d23d1e..97ee819 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -103,22 +103,26 @@ public class OrderConfirm implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
+    this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
           byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     int clOrdIdLen = byteBuf.readInt();
+    this.clOrdId = null;
     if (clOrdIdLen > 0) {
       this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
+    this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
       this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index e6fe4c8..12e867b 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -59,12 +59,14 @@ public class RiskResult implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
+    this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
           byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
+    this.riskReason = null;
     if (riskReasonLen > 0) {
       this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
     }
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
index b80c25f..6499f9a 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java
@@ -324,6 +324,7 @@ public class BasicPacket implements BinaryCodec {
     this.fieldF32 = byteBuf.readFloatLE();
     this.fieldF64 = byteBuf.readDoubleLE();
     int fieldI8ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI8List = null;
     if (fieldI8ListSize > 0) {
       this.fieldI8List = new ArrayList<>();
       for (int i = 0; i < fieldI8ListSize; i++) {
@@ -331,6 +332,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldI16ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI16List = null;
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
@@ -338,6 +340,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldI32ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI32List = null;
     if (fieldI32ListSize > 0) {
       this.fieldI32List = new ArrayList<>();
       for (int i = 0; i < fieldI32ListSize; i++) {
@@ -345,6 +348,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldI64ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI64List = null;
     if (fieldI64ListSize > 0) {
       this.fieldI64List = new ArrayList<>();
       for (int i = 0; i < fieldI64ListSize; i++) {
@@ -352,6 +356,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldCharListSize = byteBuf.readUnsignedShortLE();
+    this.fieldCharList = null;
     if (fieldCharListSize > 0) {
       this.fieldCharList = new ArrayList<>();
       for (int i = 0; i < fieldCharListSize; i++) {
@@ -359,6 +364,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU8ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU8List = null;
     if (fieldU8ListSize > 0) {
       this.fieldU8List = new ArrayList<>();
       for (int i = 0; i < fieldU8ListSize; i++) {
@@ -366,6 +372,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU16ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU16List = null;
     if (fieldU16ListSize > 0) {
       this.fieldU16List = new ArrayList<>();
       for (int i = 0; i < fieldU16ListSize; i++) {
@@ -373,6 +380,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU32ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU32List = null;
     if (fieldU32ListSize > 0) {
       this.fieldU32List = new ArrayList<>();
       for (int i = 0; i < fieldU32ListSize; i++) {
@@ -380,6 +388,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldU64ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldU64List = null;
     if (fieldU64ListSize > 0) {
       this.fieldU64List = new ArrayList<>();
       for (int i = 0; i < fieldU64ListSize; i++) {
@@ -387,6 +396,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldF32ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldF32List = null;
     if (fieldF32ListSize > 0) {
       this.fieldF32List = new ArrayList<>();
       for (int i = 0; i < fieldF32ListSize; i++) {
@@ -394,6 +404,7 @@ public class BasicPacket implements BinaryCodec {
       }
     }
     int fieldF64ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldF64List = null;
     if (fieldF64ListSize > 0) {
       this.fieldF64List = new ArrayList<>();
       for (int i = 0; i < fieldF64ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 5530162..226ff0e 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -57,6 +57,7 @@ public class NestedPacket implements BinaryCodec {
     }
     this.subPacket.decode(byteBuf);
     int subPacketListSize = byteBuf.readUnsignedShortLE();
+    this.subPacketList = null;
     if (subPacketListSize > 0) {
       this.subPacketList = new ArrayList<>();
       for (int i = 0; i < subPacketListSize; i++) {
@@ -140,6 +141,7 @@ public class NestedPacket implements BinaryCodec {
     public void decode(ByteBuf byteBuf) {
       this.fieldU32 = byteBuf.readIntLE();
       int fieldI16ListSize = byteBuf.readUnsignedShortLE();
+      this.fieldI16List = null;
       if (fieldI16ListSize > 0) {
         this.fieldI16List = new ArrayList<>();
         for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 8ff74c8..5505438 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -210,11 +210,13 @@ public class StringPacket implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicString = null;
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
           byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
     }
     int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicString1 = null;
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
           byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
@@ -224,6 +226,7 @@ public class StringPacket implements BinaryCodec {
     this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);
     this.fieldFixedString10PadWithNullTerminator = readFixedString(byteBuf, 10, '\0', false);
     int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicStringList = null;
     if (fieldDynamicStringListSize > 0) {
       this.fieldDynamicStringList = new ArrayList<>();
       for (int i = 0; i < fieldDynamicStringListSize; i++) {
@@ -239,6 +242,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldDynamicString1ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldDynamicString1List = null;
     if (fieldDynamicString1ListSize > 0) {
       this.fieldDynamicString1List = new ArrayList<>();
       for (int i = 0; i < fieldDynamicString1ListSize; i++) {
@@ -254,6 +258,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString1ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString1List = null;
     if (fieldFixedString1ListSize > 0) {
       this.fieldFixedString1List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString1ListSize; i++) {
@@ -261,6 +266,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString10ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString10List = null;
     if (fieldFixedString10ListSize > 0) {
       this.fieldFixedString10List = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListSize; i++) {
@@ -268,6 +274,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString10ListPadSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString10ListPad = null;
     if (fieldFixedString10ListPadSize > 0) {
       this.fieldFixedString10ListPad = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10ListPadSize; i++) {
@@ -275,6 +282,7 @@ public class StringPacket implements BinaryCodec {
       }
     }
     int fieldFixedString10PadWithNullTerminatorListSize = byteBuf.readUnsignedShortLE();
+    this.fieldFixedString10PadWithNullTerminatorList = null;
     if (fieldFixedString10PadWithNullTerminatorListSize > 0) {
       this.fieldFixedString10PadWithNullTerminatorList = new ArrayList<>();
       for (int i = 0; i < fieldFixedString10PadWithNullTerminatorListSize; i++) {
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
index fd11a55..7425210 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/SubPacket.java
@@ -44,6 +44,7 @@ public class SubPacket implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.fieldU32 = byteBuf.readIntLE();
     int fieldI16ListSize = byteBuf.readUnsignedShortLE();
+    this.fieldI16List = null;
     if (fieldI16ListSize > 0) {
       this.fieldI16List = new ArrayList<>();
       for (int i = 0; i < fieldI16ListSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
index 3ad1f94..4f7cd85 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java
@@ -61,6 +61,7 @@ public class ExecRptInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int pbuSize = byteBuf.readUnsignedShort();
+    this.pbu = null;
     if (pbuSize > 0) {
       this.pbu = new ArrayList<>();
       for (int i = 0; i < pbuSize; i++) {
@@ -68,6 +69,7 @@ public class ExecRptInfo implements BinaryCodec {
       }
     }
     int setIdSize = byteBuf.readUnsignedShort();
+    this.setId = null;
     if (setIdSize > 0) {
       this.setId = new ArrayList<>();
       for (int i = 0; i < setIdSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
index 5bca71f..3859790 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java
@@ -33,6 +33,7 @@ public class ExecRptSync implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int subExecRptSyncSize = byteBuf.readUnsignedShort();
+    this.subExecRptSync = null;
     if (subExecRptSyncSize > 0) {
       this.subExecRptSync = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncSize; i++) {
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
index 246c39e..526ee1b 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSyncRsp.java
@@ -33,6 +33,7 @@ public class ExecRptSyncRsp implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int subExecRptSyncRspSize = byteBuf.readUnsignedShort();
+    this.subExecRptSyncRsp = null;
     if (subExecRptSyncRspSize > 0) {
       this.subExecRptSyncRsp = new ArrayList<>();
       for (int i = 0; i < subExecRptSyncRspSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 995c7f9..f7c1b9d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -109,6 +109,7 @@ public class Extend206302 implements BinaryCodec {
     this.lotType = readFixedString(byteBuf, 1);
     this.imcrejectTextLen = byteBuf.readInt();
     int imcrejectTextLen = byteBuf.readInt();
+    this.imcrejectText = null;
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
           byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 3ce9ee0..23c893e 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -44,6 +44,7 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int platformPartitionSize = byteBuf.readInt();
+    this.platformPartition = null;
     if (platformPartitionSize > 0) {
       this.platformPartition = new ArrayList<>();
       for (int i = 0; i < platformPartitionSize; i++) {
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 5a8674c..9980e63 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -33,6 +33,7 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int partitionReportSize = byteBuf.readInt();
+    this.partitionReport = null;
     if (partitionReportSize > 0) {
       this.partitionReport = new ArrayList<>();
       for (int i = 0; i < partitionReportSize; i++) {
-- 
2.43.0


From ef070054b61551147a33cbf8ef8139bd4401f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 07/13] fix: do not read text beyond the readable bytes

readCharSequence does not check the writer index: truncated text was filled
from stale bytes behind it, and on direct buffers a hostile length was
allocated before being rejected.
---
 .../main/java/com/finproto/codec/BinaryCodec.java    |  2 +-
 .../com/finproto/risk/bin/messages/CancelReject.java |  8 ++++----
 .../finproto/risk/bin/messages/ExecutionReport.java  |  6 +++---
 .../com/finproto/risk/bin/messages/NewOrder.java     |  8 ++++----
 .../com/finproto/risk/bin/messages/OrderCancel.java  | 10 +++++-----
 .../com/finproto/risk/bin/messages/OrderConfirm.java |  8 ++++----
 .../com/finproto/risk/bin/messages/RiskResult.java   |  4 ++--
 .../com/finproto/sample/messages/StringPacket.java   | 12 ++++--------
 .../com/finproto/szse/bin/messages/Extend206302.java |  2 +-
 9 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index 5d8d8e6..d878350 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -60,7 +60,7 @@ public interface BinaryCodec {
   }
 
   default String readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft) {
-    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
+    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);
     if (padLeft) {
       return trimByChar(value, trimPadChar, true);
     } else {
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index e3bb4af..cfb9278 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -97,24 +97,24 @@ public class CancelReject implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.cxlRejReason = byteBuf.readInt();
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index b550d73..94d8ce0 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -100,17 +100,17 @@ public class ExecutionReport implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int ordCnfmIdLen = byteBuf.readInt();
     this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
     this.lastPx = byteBuf.readLong();
     this.lastQty = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index a4e1c21..88606f3 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -126,17 +126,17 @@ public class NewOrder implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     this.securityId = null;
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
     this.side = readFixedString(byteBuf, 1);
     this.price = byteBuf.readLong();
@@ -145,7 +145,7 @@ public class NewOrder implements BinaryCodec {
     int accountLen = byteBuf.readInt();
     this.account = null;
     if (accountLen > 0) {
-      this.account = byteBuf.readCharSequence(accountLen, StandardCharsets.UTF_8).toString();
+      this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 8c74abd..6b0aedc 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -103,29 +103,29 @@ public class OrderCancel implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     this.origClOrdId = null;
     if (origClOrdIdLen > 0) {
       this.origClOrdId =
-          byteBuf.readCharSequence(origClOrdIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     this.securityId = null;
     if (securityIdLen > 0) {
-      this.securityId = byteBuf.readCharSequence(securityIdLen, StandardCharsets.UTF_8).toString();
+      this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index 97ee819..f0b518a 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -106,25 +106,25 @@ public class OrderConfirm implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
     if (uniqueOrigOrderIdLen > 0) {
       this.uniqueOrigOrderId =
-          byteBuf.readCharSequence(uniqueOrigOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
     if (clOrdIdLen > 0) {
-      this.clOrdId = byteBuf.readCharSequence(clOrdIdLen, StandardCharsets.UTF_8).toString();
+      this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     this.ordCnfmId = null;
     if (ordCnfmIdLen > 0) {
-      this.ordCnfmId = byteBuf.readCharSequence(ordCnfmIdLen, StandardCharsets.UTF_8).toString();
+      this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index 12e867b..7c4fb89 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -62,13 +62,13 @@ public class RiskResult implements BinaryCodec {
     this.uniqueOrderId = null;
     if (uniqueOrderIdLen > 0) {
       this.uniqueOrderId =
-          byteBuf.readCharSequence(uniqueOrderIdLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     this.riskReason = null;
     if (riskReasonLen > 0) {
-      this.riskReason = byteBuf.readCharSequence(riskReasonLen, StandardCharsets.UTF_8).toString();
+      this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     }
   }
 
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
index 5505438..bdda483 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java
@@ -213,13 +213,13 @@ public class StringPacket implements BinaryCodec {
     this.fieldDynamicString = null;
     if (fieldDynamicStringLen > 0) {
       this.fieldDynamicString =
-          byteBuf.readCharSequence(fieldDynamicStringLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
     }
     int fieldDynamicString1Len = byteBuf.readUnsignedShortLE();
     this.fieldDynamicString1 = null;
     if (fieldDynamicString1Len > 0) {
       this.fieldDynamicString1 =
-          byteBuf.readCharSequence(fieldDynamicString1Len, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(fieldDynamicString1Len).toString(StandardCharsets.UTF_8);
     }
     this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);
     this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);
@@ -233,9 +233,7 @@ public class StringPacket implements BinaryCodec {
         int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicStringListLen > 0) {
           this.fieldDynamicStringList.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicStringListLen, StandardCharsets.UTF_8)
-                  .toString());
+              byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
         } else {
           this.fieldDynamicStringList.add("");
         }
@@ -249,9 +247,7 @@ public class StringPacket implements BinaryCodec {
         int fieldDynamicString1ListLen = byteBuf.readUnsignedShortLE();
         if (fieldDynamicString1ListLen > 0) {
           this.fieldDynamicString1List.add(
-              byteBuf
-                  .readCharSequence(fieldDynamicString1ListLen, StandardCharsets.UTF_8)
-                  .toString());
+              byteBuf.readSlice(fieldDynamicString1ListLen).toString(StandardCharsets.UTF_8));
         } else {
           this.fieldDynamicString1List.add("");
         }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index f7c1b9d..0c29e6d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -112,7 +112,7 @@ public class Extend206302 implements BinaryCodec {
     this.imcrejectText = null;
     if (imcrejectTextLen > 0) {
       this.imcrejectText =
-          byteBuf.readCharSequence(imcrejectTextLen, StandardCharsets.UTF_8).toString();
+          byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
     }
   }
 
-- 
2.43.0


From 58bf8ccabffa15aa4325a011b68e924220befaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 08/13] fix: reject negative 32-bit length prefixes

They were silently decoded as an absent text or group.
---
 .../com/finproto/risk/bin/messages/CancelReject.java   |  8 ++++----
 .../finproto/risk/bin/messages/ExecutionReport.java    |  6 +++---
 .../java/com/finproto/risk/bin/messages/NewOrder.java  |  8 ++++----
 .../com/finproto/risk/bin/messages/OrderCancel.java    | 10 +++++-----
 .../com/finproto/risk/bin/messages/OrderConfirm.java   |  8 ++++----
 .../com/finproto/risk/bin/messages/RiskResult.java     |  4 ++--
 .../com/finproto/szse/bin/messages/Extend206302.java   |  2 +-
 .../com/finproto/szse/bin/messages/PlatformInfo.java   |  3 +++
 .../szse/bin/messages/ReportSynchronization.java       |  3 +++
 9 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
index cfb9278..b8a324d 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/CancelReject.java
@@ -95,24 +95,24 @@ public class CancelReject implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
     this.uniqueOrderId = null;
-    if (uniqueOrderIdLen > 0) {
+    if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
-    if (uniqueOrigOrderIdLen > 0) {
+    if (uniqueOrigOrderIdLen != 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
-    if (clOrdIdLen > 0) {
+    if (clOrdIdLen != 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     this.origClOrdId = null;
-    if (origClOrdIdLen > 0) {
+    if (origClOrdIdLen != 0) {
       this.origClOrdId =
           byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
index 94d8ce0..ae2d1a4 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/ExecutionReport.java
@@ -98,18 +98,18 @@ public class ExecutionReport implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
     this.uniqueOrderId = null;
-    if (uniqueOrderIdLen > 0) {
+    if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
-    if (clOrdIdLen > 0) {
+    if (clOrdIdLen != 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int ordCnfmIdLen = byteBuf.readInt();
     this.ordCnfmId = null;
-    if (ordCnfmIdLen > 0) {
+    if (ordCnfmIdLen != 0) {
       this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
     this.lastPx = byteBuf.readLong();
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
index 88606f3..1664182 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java
@@ -124,18 +124,18 @@ public class NewOrder implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
     this.uniqueOrderId = null;
-    if (uniqueOrderIdLen > 0) {
+    if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
-    if (clOrdIdLen > 0) {
+    if (clOrdIdLen != 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     this.securityId = null;
-    if (securityIdLen > 0) {
+    if (securityIdLen != 0) {
       this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
     this.side = readFixedString(byteBuf, 1);
@@ -144,7 +144,7 @@ public class NewOrder implements BinaryCodec {
     this.ordType = readFixedString(byteBuf, 1);
     int accountLen = byteBuf.readInt();
     this.account = null;
-    if (accountLen > 0) {
+    if (accountLen != 0) {
       this.account = byteBuf.readSlice(accountLen).toString(StandardCharsets.UTF_8);
     }
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
index 6b0aedc..2d221d6 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderCancel.java
@@ -101,30 +101,30 @@ public class OrderCancel implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
     this.uniqueOrderId = null;
-    if (uniqueOrderIdLen > 0) {
+    if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
-    if (uniqueOrigOrderIdLen > 0) {
+    if (uniqueOrigOrderIdLen != 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
-    if (clOrdIdLen > 0) {
+    if (clOrdIdLen != 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int origClOrdIdLen = byteBuf.readInt();
     this.origClOrdId = null;
-    if (origClOrdIdLen > 0) {
+    if (origClOrdIdLen != 0) {
       this.origClOrdId =
           byteBuf.readSlice(origClOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     int securityIdLen = byteBuf.readInt();
     this.securityId = null;
-    if (securityIdLen > 0) {
+    if (securityIdLen != 0) {
       this.securityId = byteBuf.readSlice(securityIdLen).toString(StandardCharsets.UTF_8);
     }
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
index f0b518a..d5642ea 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/OrderConfirm.java
@@ -104,26 +104,26 @@ public class OrderConfirm implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
     this.uniqueOrderId = null;
-    if (uniqueOrderIdLen > 0) {
+    if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int uniqueOrigOrderIdLen = byteBuf.readInt();
     this.uniqueOrigOrderId = null;
-    if (uniqueOrigOrderIdLen > 0) {
+    if (uniqueOrigOrderIdLen != 0) {
       this.uniqueOrigOrderId =
           byteBuf.readSlice(uniqueOrigOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     int clOrdIdLen = byteBuf.readInt();
     this.clOrdId = null;
-    if (clOrdIdLen > 0) {
+    if (clOrdIdLen != 0) {
       this.clOrdId = byteBuf.readSlice(clOrdIdLen).toString(StandardCharsets.UTF_8);
     }
     this.execType = readFixedString(byteBuf, 1);
     this.ordRejReason = byteBuf.readInt();
     int ordCnfmIdLen = byteBuf.readInt();
     this.ordCnfmId = null;
-    if (ordCnfmIdLen > 0) {
+    if (ordCnfmIdLen != 0) {
       this.ordCnfmId = byteBuf.readSlice(ordCnfmIdLen).toString(StandardCharsets.UTF_8);
     }
   }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
index 7c4fb89..ce92c97 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RiskResult.java
@@ -60,14 +60,14 @@ public class RiskResult implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     int uniqueOrderIdLen = byteBuf.readInt();
     this.uniqueOrderId = null;
-    if (uniqueOrderIdLen > 0) {
+    if (uniqueOrderIdLen != 0) {
       this.uniqueOrderId =
           byteBuf.readSlice(uniqueOrderIdLen).toString(StandardCharsets.UTF_8);
     }
     this.riskStatus = byteBuf.readByte();
     int riskReasonLen = byteBuf.readInt();
     this.riskReason = null;
-    if (riskReasonLen > 0) {
+    if (riskReasonLen != 0) {
       this.riskReason = byteBuf.readSlice(riskReasonLen).toString(StandardCharsets.UTF_8);
     }
   }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
index 0c29e6d..81ebc6d 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/Extend206302.java
@@ -110,7 +110,7 @@ public class Extend206302 implements BinaryCodec {
     this.imcrejectTextLen = byteBuf.readInt();
     int imcrejectTextLen = byteBuf.readInt();
     this.imcrejectText = null;
-    if (imcrejectTextLen > 0) {
+    if (imcrejectTextLen != 0) {
       this.imcrejectText =
           byteBuf.readSlice(imcrejectTextLen).toString(StandardCharsets.UTF_8);
     }
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
index 23c893e..8f47dd9 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/PlatformInfo.java
@@ -44,6 +44,9 @@ public class PlatformInfo implements BinaryCodec {
   public void decode(ByteBuf byteBuf) {
     this.platformId = byteBuf.readShort();
     int platformPartitionSize = byteBuf.readInt();
+    if (platformPartitionSize < 0) {
+      throw new IllegalArgumentException("Invalid size:" + platformPartitionSize);
+    }
     this.platformPartition = null;
     if (platformPartitionSize > 0) {
       this.platformPartition = new ArrayList<>();
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
index 9980e63..22b6999 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java
@@ -33,6 +33,9 @@ public class ReportSynchronization implements BinaryCodec {
   @Override
   public void decode(ByteBuf byteBuf) {
     int partitionReportSize = byteBuf.readInt();
+    if (partitionReportSize < 0) {
+      throw new IllegalArgumentException("Invalid size:" + partitionReportSize);
+    }
     this.partitionReport = null;
     if (partitionReportSize > 0) {
       this.partitionReport = new ArrayList<>();
-- 
2.43.0


From 3986d779146e073574496142a035b67032696dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 09/13] fix: pad absent left-padded text to its fixed width

Nothing was written for null or empty text, shifting all later fields.
---
 codec/src/main/java/com/finproto/codec/BinaryCodec.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codec/src/main/java/com/finproto/codec/BinaryCodec.java b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
index d878350..9b05919 100644
--- a/codec/src/main/java/com/finproto/codec/BinaryCodec.java
+++ b/codec/src/main/java/com/finproto/codec/BinaryCodec.java
@@ -24,6 +24,8 @@ public interface BinaryCodec {
         padChar(byteBuf, len - writedLen, padChar);
       }
       byteBuf.writeBytes(bytes, 0, writedLen);
+    } else if (padLeft) {
+      padChar(byteBuf, len, padChar);
     }
     if (!padLeft && writedLen < len) {
       padChar(byteBuf, len - writedLen, padChar);
-- 
2.43.0


From 165c77e355555f317afd6db007f6257aff51d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 10/13] fix: clear positions of IntBitMap and LongBitMap
 instead of setting them

---
 codec/src/main/java/com/finproto/bitmap/IntBitMap.java  | 2 +-
 codec/src/main/java/com/finproto/bitmap/LongBitMap.java | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
index 78dcf42..f563abc 100644
--- a/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/IntBitMap.java
@@ -14,7 +14,7 @@ public final class IntBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     int bit = 1 << (31 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
diff --git a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
index 2e9d1d7..018aba8 100644
--- a/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
+++ b/codec/src/main/java/com/finproto/bitmap/LongBitMap.java
@@ -14,7 +14,7 @@ public final class LongBitMap implements BitMap {
   @Override
   public void clear(int pos) {
     long bit = 1L << (63 - pos);
-    bits |= bit;
+    bits &= ~bit;
   }
 
   @Override
-- 
2.43.0


From b99deaf7d833e907ea0fc8c3429ba4631cb84b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 11/13] fix: forget the reverse mapping when an SSE message
 type is removed

---
 .../src/main/java/com/finproto/sse/bin/messages/SseBinary.java   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 0cc1acb..763e547 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -216,6 +216,7 @@ public class SseBinary implements BinaryCodec {
     }
 
     public boolean remove(Integer msgType) {
+      reverseMap.values().removeIf(value -> Objects.equals(value, msgType));
       return null != bodyMap.remove(msgType);
     }
 
-- 
2.43.0


From 6f533e098266c82ea4f29e6fc55762a116c82eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 12/13] fix: make the shared message and checksum registries
 safe for concurrent use

The process-wide registries were plain HashMaps: concurrent registration lost
entries or let two services win one name, and readers could miss entries
during a resize.
---
 .../com/finproto/bjse/trade/messages/AllegeQuote.java    | 4 +++-
 .../com/finproto/bjse/trade/messages/BjseBinary.java     | 4 +++-
 .../finproto/bjse/trade/messages/ExecutionConfirm.java   | 4 +++-
 .../finproto/bjse/trade/messages/ExecutionReport.java    | 4 +++-
 .../java/com/finproto/bjse/trade/messages/NewOrder.java  | 4 +++-
 .../java/com/finproto/bjse/trade/messages/Quote.java     | 4 +++-
 .../com/finproto/bjse/trade/messages/QuoteResponse.java  | 4 +++-
 .../finproto/bjse/trade/messages/QuoteStatusReport.java  | 4 +++-
 .../bjse/trade/messages/TradeCaptureConfirm.java         | 4 +++-
 .../finproto/bjse/trade/messages/TradeCaptureReport.java | 4 +++-
 .../bjse/trade/messages/TradeCaptureReportAck.java       | 4 +++-
 .../java/com/finproto/codec/ChecksumServiceFactory.java  | 8 ++++----
 .../java/com/finproto/risk/bin/messages/RcBinary.java    | 4 +++-
 .../java/com/finproto/sample/messages/RootPacket.java    | 4 +++-
 .../java/com/finproto/sse/bin/messages/SseBinary.java    | 9 +++++----
 .../com/finproto/szse/bin/messages/ExecutionConfirm.java | 4 +++-
 .../com/finproto/szse/bin/messages/ExecutionReport.java  | 4 +++-
 .../java/com/finproto/szse/bin/messages/NewOrder.java    | 4 +++-
 .../java/com/finproto/szse/bin/messages/SzseBinary.java  | 4 +++-
 19 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
index e09ef92..36bb362 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/AllegeQuote.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -465,7 +466,8 @@ public class AllegeQuote implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", AllegeQuoteExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
index 7f66847..fb4ee4a 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -101,7 +102,8 @@ public class BjseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 1, Logon::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
index f94c4dd..04da5f3 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -465,7 +466,8 @@ public class ExecutionConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ConfirmExtend010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
index 8470ddc..6396e9b 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/ExecutionReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -405,7 +406,8 @@ public class ExecutionReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ReportExtend010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
index d796d84..b41bbbb 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class NewOrder implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", ExtendNewOrder010::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
index a234527..a077e51 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/Quote.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class Quote implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
index e9baa7e..0820dae 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteResponse.java
@@ -4,6 +4,7 @@ package com.finproto.bjse.trade.messages;
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
 import java.util.ArrayList;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -439,7 +440,8 @@ public class QuoteResponse implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteResponseExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
index 2b2ece5..7c89157 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/QuoteStatusReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -360,7 +361,8 @@ public class QuoteStatusReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("070", QuoteStatusReportExtend070::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
index 17712c1..994de69 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -495,7 +496,8 @@ public class TradeCaptureConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureConfirmExtend031::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
index 7e616d7..4476ab7 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -435,7 +436,8 @@ public class TradeCaptureReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureReportExtend031::new);
diff --git a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
index b2ba099..30fd7c8 100644
--- a/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
+++ b/bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReportAck.java
@@ -3,6 +3,7 @@ package com.finproto.bjse.trade.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -555,7 +556,8 @@ public class TradeCaptureReportAck implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("031", TradeCaptureReportAckExtend031::new);
diff --git a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
index 0fb10a5..c9469b0 100644
--- a/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
+++ b/codec/src/main/java/com/finproto/codec/ChecksumServiceFactory.java
@@ -19,15 +19,15 @@ public enum ChecksumServiceFactory {
     registry(new SzseBinChecksumService());
   }
 
-  public void removeChecksumService(String name) {
+  public synchronized void removeChecksumService(String name) {
     CACHE.remove(name);
   }
 
-  public void clearAllChecksumService() {
+  public synchronized void clearAllChecksumService() {
     CACHE.clear();
   }
 
-  public boolean registry(ChecksumService<?, ?> checksumService) {
+  public synchronized boolean registry(ChecksumService<?, ?> checksumService) {
     if (CACHE.containsKey(checksumService.algorithm())) {
       return false;
     }
@@ -36,7 +36,7 @@ public enum ChecksumServiceFactory {
   }
 
   @SuppressWarnings("unchecked")
-  public <T, R> ChecksumService<T, R> getChecksumService(String name) {
+  public synchronized <T, R> ChecksumService<T, R> getChecksumService(String name) {
     return (ChecksumService<T, R>) CACHE.get(name);
   }
 }
diff --git a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
index ef8a39d..1d50a0a 100644
--- a/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
+++ b/risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java
@@ -3,6 +3,7 @@ package com.finproto.risk.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -107,7 +108,8 @@ public class RcBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 100101, NewOrder::new);
diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
index 355050d..98956e4 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -118,7 +119,8 @@ public class RootPacket implements BinaryCodec {
 
   public static enum PayloadMessageFactory {
     INSTANCE;
-    private final Map<Short, Supplier<BinaryCodec>> payloadMap = new HashMap<>();
+    private final Map<Short, Supplier<BinaryCodec>> payloadMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((short) 1, BasicPacket::new);
diff --git a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
index 763e547..d641667 100644
--- a/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
+++ b/sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java
@@ -202,7 +202,7 @@ public class SseBinary implements BinaryCodec {
               ExecRptEndOfStream::new);
     }
 
-    public BinaryCodec create(Integer msgType) {
+    public synchronized BinaryCodec create(Integer msgType) {
       Supplier<BinaryCodec> supplier = bodyMap.get(msgType);
       if (null == supplier) {
         throw new IllegalArgumentException("Unsupported MsgType:" + msgType);
@@ -210,17 +210,18 @@ public class SseBinary implements BinaryCodec {
       return supplier.get();
     }
 
-    public void register(Class<?> clazz, Integer msgType, Supplier<BinaryCodec> supplier) {
+    public synchronized void register(
+        Class<?> clazz, Integer msgType, Supplier<BinaryCodec> supplier) {
       bodyMap.put(msgType, supplier);
       reverseMap.put(clazz, msgType);
     }
 
-    public boolean remove(Integer msgType) {
+    public synchronized boolean remove(Integer msgType) {
       reverseMap.values().removeIf(value -> Objects.equals(value, msgType));
       return null != bodyMap.remove(msgType);
     }
 
-    public Integer getMsgType(Class<?> clazz) {
+    public synchronized Integer getMsgType(Class<?> clazz) {
       return reverseMap.get(clazz);
     }
 
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
index dceaeea..0a4bca1 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -480,7 +481,8 @@ public class ExecutionConfirm implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend200102::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
index 668ed5e..40dee6c 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -420,7 +421,8 @@ public class ExecutionReport implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend200115::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
index 0dc1508..4aacf80 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java
@@ -3,6 +3,7 @@ package com.finproto.szse.bin.messages;
 
 import com.finproto.codec.BinaryCodec;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -300,7 +301,8 @@ public class NewOrder implements BinaryCodec {
 
   public static enum ApplExtendMessageFactory {
     INSTANCE;
-    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();
+    private final Map<String, Supplier<BinaryCodec>> applExtendMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register("010", Extend100101::new);
diff --git a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
index e1a5d52..f7f2749 100644
--- a/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
+++ b/szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java
@@ -5,6 +5,7 @@ import com.finproto.codec.BinaryCodec;
 import com.finproto.codec.ChecksumService;
 import com.finproto.codec.ChecksumServiceFactory;
 import io.netty.buffer.ByteBuf;
+import java.util.Collections;
 import java.util.HashMap;
 import java.util.Map;
 import java.util.Objects;
@@ -118,7 +119,8 @@ public class SzseBinary implements BinaryCodec {
 
   public static enum BodyMessageFactory {
     INSTANCE;
-    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();
+    private final Map<Integer, Supplier<BinaryCodec>> bodyMap =
+        Collections.synchronizedMap(new HashMap<>());
 
     static {
       getInstance().register((int) 1, Logon::new);
-- 
2.43.0


From d1b7c5b575b57942539fbe4ca25a0eaf447c74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 13/13] fix: decode nested messages of NestedPacket into new
 objects

---
 .../java/com/finproto/sample/messages/NestedPacket.java   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
index 226ff0e..99c6cc8 100644
--- a/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
+++ b/sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java
@@ -52,9 +52,7 @@ public class NestedPacket implements BinaryCodec {
 
   @Override
   public void decode(ByteBuf byteBuf) {
-    if (null == this.subPacket) {
-      this.subPacket = new SubPacket();
-    }
+    this.subPacket = new SubPacket();
     this.subPacket.decode(byteBuf);
     int subPacketListSize = byteBuf.readUnsignedShortLE();
     this.subPacketList = null;
@@ -66,9 +64,7 @@ public class NestedPacket implements BinaryCodec {
         this.subPacketList.add(subPacketList_);
       }
     }
-    if (null == this.inerPacket) {
-      this.inerPacket = new InerPacket();
-    }
+    this.inerPacket = new InerPacket();
     this.inerPacket.decode(byteBuf);
   }
 
-- 
2.43.0

