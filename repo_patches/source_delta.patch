From 6e37778c75e1729e30bb9d2b523f4bb5d6ab26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/51] fix: read_uint64 decodes unsigned values

---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..95f623c 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return struct.unpack('>Q', self.stream.read(8))[0]
 
 
 class DataOutputStream:
-- 
2.43.0


From 4c44e7257acb228c072f2f4d3c3c27a612721104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/51] fix: char8 occupies one octet in both directions

---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 95f623c..99e8932 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From 241ea5c5d052eda9d790016f9ec77c7a39525d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/51] fix: read_bytes and read_utf reject a truncated stream

---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 99e8932..aaa2ee8 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -67,7 +67,7 @@ class DataInputStream:
 
     def read_bytes(self, n: int) -> bytes:
         """Read n bytes from the stream."""
-        return self.stream.read(n)
+        return struct.unpack(f'{n}s', self.stream.read(n))[0]
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From 23fd002b4df44dee368943b756f37c55d7fd1a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 04/51] fix: decode PDU type 6 as ResupplyOfferPdu

---
 opendis/PduFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..b8dd6a9 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
-- 
2.43.0


From 5e810a5c74c8c0c3b7e760afd47c5a38c1af6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 05/51] fix: do not decode PDU type 41 as PointObjectStatePdu

---
 opendis/PduFactory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index b8dd6a9..18eff9e 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -42,7 +42,6 @@ PduTypeDecoders = {
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
-- 
2.43.0


From ba56326c3fb159464b29c132247cbb15027da5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 06/51] fix: register StartResumeReliablePdu (53)

---
 opendis/PduFactory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 18eff9e..a8535c5 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -47,6 +47,7 @@ PduTypeDecoders = {
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
-- 
2.43.0


From e74639cbe0c01396e4541872e8b3ab7fb1de7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 07/51] fix: initialise IFFData record length from its octets

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..6d5c7b8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -184,7 +184,7 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        outputStream.write_unsigned_short(len(self.iffData) + 6)
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From b683b36e4bf2c211f5b670de8941542de2e1ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 08/51] fix: AttachedParts serializes and parses
 attachedPartType

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 6d5c7b8..cfcf23f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -800,7 +800,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -808,7 +808,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From 0c21401d1a35daf69accc291e45da4af7be93bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 09/51] fix: SilentEntitySystem appearance records are 32-bit
 values

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index cfcf23f..eb26439 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2205,7 +2205,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2213,8 +2213,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.appearanceRecordList.append(element)
 
 
-- 
2.43.0


From cb97ad52442e6ad5e44f8bddf9ef946b65e6ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 10/51] fix: SilentAggregateSystem serializes aggregateType

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index eb26439..4ca3c8d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2233,7 +2233,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From de464fc8c3991d9d24b1275e3fac2582935a12ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 11/51] fix: StandardVariableSpecification parses its records

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4ca3c8d..d9a175e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2609,8 +2609,8 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            element = parseStandardVariableRecord(inputStream,
+                                                  StandardVariableRecord)
             self.standardVariables.append(element)
 
 
-- 
2.43.0


From ab12804109f7f370f7dc050dc93804a9a73c81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 12/51] fix: RecordSpecification parses its record sets

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d9a175e..850108c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3284,7 +3284,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
-- 
2.43.0


From 8232d98ebe4c2e7018880d86fb123af955ec306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 13/51] fix: GridAxisDescriptorVariable xiValues are uint16

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 850108c..e60785a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2134,7 +2134,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2150,8 +2150,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_short()
             self.xiValues.append(element)
 
 
-- 
2.43.0


From b609a0492e0f7af8ee7bafe6a17ff2cc51b24352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 14/51] fix: IntercomSignalPdu data is a sequence of octets

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index e60785a..1b152ed 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4258,7 +4258,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
         for anObj in self.data:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4273,8 +4273,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
 
-- 
2.43.0


From 41744c7a73a88586fb0da8f9ea06304ddffe377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 15/51] fix: ResupplyReceivedPdu parses its supplies

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b152ed..1f574cb 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4347,7 +4347,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
-- 
2.43.0


From 0b44bf9bb2f7590a2f862f349a0bd5b2283fc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 16/51] fix: RecordQueryReliablePdu record IDs are 32-bit
 values

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1f574cb..4b129a8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6560,7 +6560,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6573,8 +6573,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
 
 
-- 
2.43.0


From e5b0c5d2428bcdbdd4077073f70d5d19dabe6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 17/51] fix: SeesPdu parses propulsion and vectoring nozzle
 systems

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4b129a8..32834ed 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7105,12 +7105,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From 630dc1ffdee2659382fd5d283379fda458d0a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 18/51] fix: register SeesPdu (30)

---
 opendis/PduFactory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index a8535c5..739876f 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -36,6 +36,7 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
-- 
2.43.0


From c763640349ab923ae9c66946aa7f35038bd5e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 19/51] fix: MinefieldResponseNackPdu sequence numbers are
 octets

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 32834ed..1d87b84 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7279,7 +7279,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7290,8 +7290,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
 
 
-- 
2.43.0


From 751a4560aac04d5d811d016ae03cda5dfbeb614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 20/51] fix: AngularVelocityVector keeps its arguments

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1d87b84..921b685 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2706,11 +2706,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 330dbf973987fcb67be53309e72066256c483d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 21/51] fix: AggregateMarking keeps its characters

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 921b685..ad0bbff 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2738,7 +2738,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
-- 
2.43.0


From 70927f8a4a5d7535b130fac2f7c5d3ab57b0c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 22/51] fix: EngineFuel keeps its arguments

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ad0bbff..3e14d9d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1971,13 +1971,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
-- 
2.43.0


From 3f371e657752c9b95b6c6b7b1da3233bb0f5de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 23/51] fix: DataQueryPdu keeps requestID and timeInterval

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3e14d9d..8e3aa77 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4067,8 +4067,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From ba1fb6c8c9b6401e1d56948157632e572ca8b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 24/51] fix: entity marking characters are unsigned octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8e3aa77..a9d5cd2 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1234,14 +1234,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From eaf0b05917028dfa61ebb00f5da319da9a576a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 25/51] fix: StorageFuelReload reload times are 32 bits wide

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a9d5cd2..40671bb 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2975,8 +2975,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2986,8 +2986,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From 7235e79afff5e7098c6a7cd325c79d7394500968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 26/51] fix: VariableDatum keeps bits of a partial last octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 40671bb..e72cbb3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3317,7 +3317,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3328,7 +3328,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From c8c7c3baba171813fdd323aee58e7cd856a3aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 27/51] fix: PduHeader length is 16 bits and status 8 bits

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index e72cbb3..083360a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3403,8 +3403,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3414,8 +3414,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From e8078e9591b656ec7f41efb0114c5f51067f51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 28/51] fix: SeparationVP serializes its station location
 record

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 083360a..06241b2 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3606,7 +3606,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3616,7 +3616,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From 5e771ca3e1bf15244ff4f88dc9f7e3e6044aeffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 29/51] fix: Environment serializes its padding

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 06241b2..069cbc2 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2656,14 +2656,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
-- 
2.43.0


From 89f39ad4bd03304120826f93ef000a0459faa136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 30/51] fix: EnvironmentGeneral initialises its padding and
 writes a 16-bit length

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 069cbc2..217c560 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3175,14 +3175,14 @@ class EnvironmentGeneral:
                  environmentType: enum32 = 0,  # [UID 250]
                  length: uint16=0,
                  index: uint8 = 0,
-                 geometry=None):
+                 geometry: enum8 = 0):
         self.environmentType = environmentType
         """Record type"""
         self.length = length
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3191,7 +3191,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3200,7 +3200,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From 5fa7bc76f3c3e6b8bab813337c033c80068ab8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 31/51] fix: LinearObjectStatePdu can be constructed

---
 opendis/dis7.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 217c560..732aaf2 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4131,7 +4131,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
         """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
-- 
2.43.0


From 641736184aae96e775515370beb7b2d5e2ab5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 32/51] fix: IntercomControlPdu serializes and parses its
 parameters

---
 opendis/dis7.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 732aaf2..5c9bd90 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6886,7 +6886,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: list["IntercomCommunicationsParameters"] | None = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6905,14 +6905,13 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
+        self.intercomParameters = intercomParameters or []
         """^^^This is wrong the length of the data field is variable. Using a long for now."""
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        # In octets; IntercomCommunicationsParameters are serialized as 8 octets
+        return 8 * len(self.intercomParameters)
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6920,7 +6919,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6937,7 +6936,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
@@ -6946,7 +6945,10 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
         # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From 938e75d6b41369f6fa40be1e0e432ea4aa8f7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 33/51] fix: EventReportReliablePdu event type is 32 bits wide

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5c9bd90..c18598f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7235,14 +7235,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From 9dfdbe5ef364fb573cbeb6e0ed996797ce97bd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 34/51] fix: ClockTime hour is a signed 32-bit value

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index c18598f..4cc6479 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1343,12 +1343,12 @@ class ClockTime:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_unsigned_int(self.hour)
+        outputStream.write_int(self.hour)
         outputStream.write_unsigned_int(self.timePastHour)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-        self.hour = inputStream.read_unsigned_int()
+        self.hour = inputStream.read_int()
         self.timePastHour = inputStream.read_unsigned_int()
 
 
-- 
2.43.0


From 9c3a7fa8a99bc07e4ed99a1a7ab818dc92f6778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 35/51] fix: DesignatorPdu dead reckoning algorithm is an
 unsigned octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4cc6479..a2f35cf 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4727,7 +4727,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4743,7 +4743,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
-- 
2.43.0


From 889a26763c9d2bbc0d63df90df4b2773b78f2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 36/51] fix: UaPdu state change indicator is an unsigned octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a2f35cf..6a35cee 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6825,7 +6825,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6844,7 +6844,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0


From 31a4f2dedfb23f9488cd0c33983fd2ab3555fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 37/51] fix: DirectedEnergyFirePdu uses cumulativeShotTime
 throughout

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 6a35cee..8921eea 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6358,7 +6358,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6378,7 +6378,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From 76fa972ea06c0dc31de3d006101a9e97bbcc460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 38/51] fix: register DirectedEnergyFirePdu (68)

---
 opendis/PduFactory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 739876f..9a85717 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -61,6 +61,7 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
  }
 
-- 
2.43.0


From dd11a9e43489a534a4c916310d2e7cc53e74b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 39/51] fix: AttributePdu declares its PDU type

---
 opendis/dis7.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8921eea..76e61fc 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5335,6 +5335,8 @@ class AttributePdu(EntityInformationFamilyPdu):
     for this PDU. INCOMPLETE
     """
 
+    pduType: enum8 = 72  # [UID 4]
+
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
                  attributeRecordPduType: enum8 = 0,  # [UID 4]
-- 
2.43.0


From 82258191f6e6676e8de4d120ee653b986b8c0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 40/51] fix: FalseTargetsAttribute carries its padding and its
 true length

---
 opendis/dis7.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 76e61fc..4c93f45 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -564,7 +564,7 @@ class FalseTargetsAttribute:
     associated Electromagnetic Emission PDU).
     """
     recordType: enum32 = 3502
-    recordLength: uint16 = 48
+    recordLength: uint16 = 40
 
     def __init__(self,
                  emitterNumber: uint8 = 0,
@@ -581,12 +581,14 @@ class FalseTargetsAttribute:
         self.beamNumber = beamNumber
         self.stateIndicator = stateIndicator
         self.padding2: uint8 = 0
+        self.padding3: uint16 = 0
         self.falseTargetCount = falseTargetCount
         self.walkSpeed = walkSpeed
         self.walkAcceleration = walkAcceleration
         self.maximumWalkDistance = maximumWalkDistance
         self.keepTime = keepTime
         self.echoSpacing = echoSpacing
+        self.padding4: uint32 = 0
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -597,12 +599,14 @@ class FalseTargetsAttribute:
         outputStream.write_unsigned_byte(self.beamNumber)
         outputStream.write_unsigned_byte(self.stateIndicator)
         outputStream.write_unsigned_byte(self.padding2)
+        outputStream.write_unsigned_short(self.padding3)
         outputStream.write_unsigned_short(self.falseTargetCount)
         outputStream.write_float(self.walkSpeed)
         outputStream.write_float(self.walkAcceleration)
         outputStream.write_float(self.maximumWalkDistance)
         outputStream.write_float(self.keepTime)
         outputStream.write_float(self.echoSpacing)
+        outputStream.write_unsigned_int(self.padding4)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -613,12 +617,14 @@ class FalseTargetsAttribute:
         self.beamNumber = inputStream.read_unsigned_byte()
         self.stateIndicator = inputStream.read_unsigned_byte()
         self.padding2 = inputStream.read_unsigned_byte()
+        self.padding3 = inputStream.read_unsigned_short()
         self.falseTargetCount = inputStream.read_unsigned_short()
         self.walkSpeed = inputStream.read_float()
         self.walkAcceleration = inputStream.read_float()
         self.maximumWalkDistance = inputStream.read_float()
         self.keepTime = inputStream.read_float()
         self.echoSpacing = inputStream.read_float()
+        self.padding4 = inputStream.read_unsigned_int()
 
 
 class MinefieldIdentifier:
-- 
2.43.0


From 1979e364e19811b58a5d7225ddb49b5c7f82f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 41/51] fix: FastEntityStatePdu parameter count is unsigned

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4c93f45..00b94b3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5772,7 +5772,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5821,7 +5821,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
-- 
2.43.0


From aa9245a33db1e062a5092348e98a6d6e390698ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 42/51] fix: EventReportPdu exposes its datum records

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 00b94b3..9a0c079 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5491,6 +5491,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From 19fde9a13ca3193b8be2744df720656a3f186deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 43/51] fix: ArticulatedParts parameter value is a 32-bit float

---
 opendis/dis7.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 9a0c079..7086822 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -894,6 +894,7 @@ class ArticulatedParts:
         self.parameterType = parameterType
         """the type of parameter represented, 32 bit enumeration"""
         self.parameterValue = parameterValue
+        self.padding: uint32 = 0
         """The definition of the 64 bits shall be determined based on the type of parameter specified in the Parameter Type field"""
 
     def serialize(self, outputStream):
@@ -902,7 +903,8 @@ class ArticulatedParts:
         outputStream.write_unsigned_byte(self.changeIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        outputStream.write_float(self.parameterValue)
+        outputStream.write_unsigned_int(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -910,7 +912,8 @@ class ArticulatedParts:
         self.changeIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.parameterValue = inputStream.read_float()
+        self.padding = inputStream.read_unsigned_int()
 
 
 class ObjectType:
-- 
2.43.0


From 231b0833c5316101d697c69b2d5f54ca556ebe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 44/51] fix: write the standard variable record header once,
 with a 16-bit length

---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From 4c2d42da816c1f846ceb879d28f58488ce746a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 45/51] fix: keep unknown standard variable records of any
 expected family

---
 opendis/record/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..3482a94 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,7 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From e79edc45fc52670800e580514a344388c4e16cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 46/51] fix: DirectedEnergyAreaAimpoint length covers its whole
 record

---
 opendis/record/warfare/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..6bb8f5b 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -127,12 +127,12 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         return len(self.directedEnergyTargetEnergyDepositions)
 
     def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+        size = 12  # recordType, recordLength, padding, two counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
-        return size
+        return size + -size % 8  # padded to a 64-bit boundary
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
@@ -146,6 +146,9 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
 
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
+        # An even number of depositions leaves 4 octets to the 64-bit boundary
+        if len(self.directedEnergyTargetEnergyDepositions) % 2 == 0:
+            outputStream.write_uint32(0)
 
     def parse(self,
               inputStream: DataInputStream,
@@ -163,6 +166,8 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        if directedEnergyTargetEnergyDepositionCount % 2 == 0:
+            inputStream.read_uint32()
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From 311b43c7a872104746072435a98f7746ae8b26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 47/51] fix: UnknownAntennaPattern consumes the declared length

---
 opendis/record/radio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..699c77c 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -96,7 +96,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
         # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From 2f4fe427cc84e0842f3dd55ae54261934a5f88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 48/51] fix: SpreadSpectrum keeps its unused bits

---
 opendis/record/radio/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 699c77c..36d6f97 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -213,6 +213,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
-- 
2.43.0


From 94df3d465c084fee0a1b49c2915ca573b7820424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 49/51] fix: DEFireFlags serializes its unused bits

---
 opendis/record/warfare/enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/record/warfare/enums.py b/opendis/record/warfare/enums.py
index 01d188a..b6a9e97 100644
--- a/opendis/record/warfare/enums.py
+++ b/opendis/record/warfare/enums.py
@@ -29,6 +29,7 @@ class DEFireFlags(base.Record):
         self._struct(
             self.weaponOn,
             self.stateUpdateFlag,
+            self.padding,
         ).serialize(outputStream)
 
     def parse(self, inputStream: DataInputStream) -> None:
-- 
2.43.0


From 630cdd1e0ab4b446927224265cc263db3cccc3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 50/51] fix: UTM latitude band X reaches to 84 degrees north

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..04b9b40 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -560,7 +560,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From 40d79c38b86a432d49ae4adf9e39c573a91481e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:43 +0000
Subject: [PATCH 51/51] fix: longitude 180 degrees belongs to UTM zone 60

---
 opendis/RangeCoordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 04b9b40..3406c9a 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -343,7 +343,7 @@ class GPS:
         lon = lla[1]
         alt = lla[2]
         #Determine the zone number
-        zoneNumber = int((lon+180.)/6) + 1
+        zoneNumber = min(int((lon+180.)/6) + 1, 60)
         #Special zone for Norway
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
-- 
2.43.0

