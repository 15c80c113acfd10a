From bbdf037c970ad35bb08e3838d6d5ac38a4c3d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 01/60] fix: ASC CDL RevNoClamp no longer clamps before
 inverting

---
 python/aces/clf/ASCCDL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index dfeefe2..ce86252 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -218,9 +218,9 @@ class ASCCDL(ProcessNode):
                 for i in range(3):
                     outSat = luma + (1.0/saturation) * (outValue[i] - luma)
                     if outSat < 0:
-                        outValue[i] = ( clamp(outSat) - offset[i] ) / slope[i]
+                        outValue[i] = ( outSat - offset[i] ) / slope[i]
                     else:
-                        outValue[i] = ( pow( clamp(outSat), 1.0/power[i] ) - offset[i] ) / slope[i]
+                        outValue[i] = ( pow( outSat, 1.0/power[i] ) - offset[i] ) / slope[i]
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             # Copy the extra channels
-- 
2.43.0


From f3471195303262715b6da1b36ed711b22f82932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 02/60] fix: ColorCorrection nodes can be processed

---
 python/aces/clf/ASCCDL.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ASCCDL.py b/python/aces/clf/ASCCDL.py
index ce86252..f3cc9ef 100644
--- a/python/aces/clf/ASCCDL.py
+++ b/python/aces/clf/ASCCDL.py
@@ -129,12 +129,12 @@ class ASCCDL(ProcessNode):
         if stride < 3:
             return values
 
-        # Base attributes
-        inBitDepth = self._attributes['inBitDepth']
-        outBitDepth = self._attributes['outBitDepth']
+        # Base attributes. Not present on ColorCorrection nodes
+        inBitDepth = self.getAttribute('inBitDepth')
+        outBitDepth = self.getAttribute('outBitDepth')
 
         # Node attributes
-        style = ''
+        style = 'Fwd'
         if 'style' in self._attributes: style = self._attributes['style']
 
         if (not(getFeatureCompatibility() & featureSets["Autodesk"]) and
-- 
2.43.0


From 7b237597f53d58fcf74f6226ee777722748dc02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 03/60] fix: Gamma basicRev works with integer gamma values

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 6fe9372..241c836 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -151,7 +151,7 @@ class Gamma(ProcessNode):
             elif style == 'basicRev':
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
-                    outValue[i] = pow(max(0.0, outValue[i]), 1/gamma[i])
+                    outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
             elif style == 'moncurveFwd':
-- 
2.43.0


From 8da193ac2cc4e66a2fc1ebae91615eeb7f80a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 04/60] fix: Gamma moncurveRev switches segments at its own
 pivot

---
 python/aces/clf/ExtensionGamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 241c836..9320f93 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -171,7 +171,7 @@ class Gamma(ProcessNode):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
                     pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= (offset[i]/(gamma[i]-1)) ):
+                    if( outValue[i] <= pivot ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 57d80990e0d6e3bd477439420df71759c14b1f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 05/60] fix: Log.process takes a default stride like every
 other node

---
 python/aces/clf/ExtensionLog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionLog.py b/python/aces/clf/ExtensionLog.py
index 6ae50b5..e7aeade 100644
--- a/python/aces/clf/ExtensionLog.py
+++ b/python/aces/clf/ExtensionLog.py
@@ -112,7 +112,7 @@ class Log(ProcessNode):
         return None
     # readChild
 
-    def process(self, values, stride, verbose=False):
+    def process(self, values, stride=0, verbose=False):
         # Base attributes
         inBitDepth = self._attributes['inBitDepth']
         outBitDepth = self._attributes['outBitDepth']
-- 
2.43.0


From 43692c1fe3942df8050718694aeb6acdc542ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 06/60] fix: ExposureContrast video and log styles can be
 processed

---
 python/aces/clf/ExtensionExposureContrast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 9f0f882..710eebd 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -52,6 +52,8 @@ IMPLEMENTATION, OR APPLICATIONS THEREOF, HELD BY PARTIES OTHER THAN A.M.P.A.S.,
 WHETHER DISCLOSED OR UNDISCLOSED.
 """
 
+import math
+
 from ProcessNode import *
 
 #
@@ -148,7 +150,7 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,(outValue[i]*pow(pow(2.0,exposure)/pivot),1.0/1.83)), contrast)
+                    outValue[i] = pow(pivot,1.0/1.83)*pow(max(0.0,outValue[i]*pow(pow(2.0,exposure)/pivot, 1.0/1.83)), contrast)
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
@@ -156,8 +158,8 @@ class ExposureContrast(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    p = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
-                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - p)*contrast + p
+                    logPivot = (0.6/2.046*math.log10(pivot/0.9) + 685.0/1023.0)
+                    outValue[i] = (outValue[i] + exposure*0.6/2.046*math.log10(2.0) - logPivot)*contrast + logPivot
 
                     outValue[i] = normalizedToBitDepth(outValue[i], outBitDepth)
 
-- 
2.43.0


From 96b731a2dd31a84ed01478552524902ad8505e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 07/60] fix: ExposureContrast copies each pixel's own extra
 channels

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 710eebd..0e4fe16 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -165,7 +165,7 @@ class ExposureContrast(ProcessNode):
 
             # Copy the extra channels
             for i in range(min(3, stride),stride):
-                outValue[i] = values[i]
+                outValue[i] = value[i]
 
             # Copy to the output array
             outValues[p*stride:(p+1)*stride] = outValue
-- 
2.43.0


From a902ba24378a478747d235297f441f172cfe0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 08/60] fix: bypass="False" does not bypass a node

---
 python/aces/clf/ExtensionGroup.py | 2 +-
 python/aces/clf/ProcessList.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 873413c..5ab532c 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,7 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') == None:
+            if processNode.getAttribute('bypass') in [None, False]:
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 485a487..274dc1d 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -354,7 +354,7 @@ class ProcessList:
             #print( "processing : %s" % result )
 
             # Process the current value using the ProcessNode
-            if (processNode.getAttribute('bypass') == None or
+            if (processNode.getAttribute('bypass') in [None, False] or
                 not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
@@ -363,7 +363,7 @@ class ProcessList:
                             " ".join(map(lambda x: "%3.6f" % x, result)),
                             type(result) ) )
 
-                    if (processNode.getAttribute('bypass') != None and
+                    if (not(processNode.getAttribute('bypass') in [None, False]) and
                         not(getFeatureCompatibility() & featureSets["Autodesk"])):
                         print( "%s (%s) - bypass ignored based on feature compatibility setting." % 
                             (processNode.getAttribute('name'), processNode.getNodeType()) )
-- 
2.43.0


From 0ffb3e8733737e7f363a1c7766e657e6fa996595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 09/60] fix: Group ignores bypass when the Autodesk features
 are off, like ProcessList

---
 python/aces/clf/ExtensionGroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 5ab532c..3a80134 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -122,7 +122,8 @@ class Group(ProcessNode):
             processNode = self._processes[i]
             #print( "processing : %s" % result )
 
-            if processNode.getAttribute('bypass') in [None, False]:
+            if (processNode.getAttribute('bypass') in [None, False] or
+                not(getFeatureCompatibility() & featureSets["Autodesk"]) ):
                 result = processNode.process(result, stride, verbose=verbose)
                 if verbose:
                     print( "Group - %s (%s) - result value : %s" % 
-- 
2.43.0


From 4d6598d8257d8362738a7f4426f516c9dc8d21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 10/60] fix: defaultRange="False" does not select the default
 range

---
 python/aces/clf/Range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Range.py b/python/aces/clf/Range.py
index 99e860a..233703a 100644
--- a/python/aces/clf/Range.py
+++ b/python/aces/clf/Range.py
@@ -109,7 +109,7 @@ class Range(ProcessNode):
         if 'style' in self._attributes: 
             clamp = (self._attributes['style'] == 'clamp')
         if 'defaultRange' in self._attributes: 
-            defaultRange = True
+            defaultRange = not (self._attributes['defaultRange'] in [None, False])
 
         # Node parameters
         minInValue = None
-- 
2.43.0


From c699af226967539df3f8f37992ec2a29b6f78367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 11/60] fix: read lower-case XML booleans of ProcessNode
 attributes

---
 python/aces/clf/ProcessNode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index b0b1a28..1aa6822 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -196,8 +196,8 @@ class ProcessNode():
         # Store attributes
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
-            if value in ["True", "False"]:
-                value = (value == "True")
+            if value in ["True", "False", "true", "false"]:
+                value = (value in ["True", "true"])
             self.setAttribute(key, value)
 
         elementType = self.getElementType(element.tag)
-- 
2.43.0


From c017759acf75fdebf49200750413262773344510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 12/60] fix: ProcessNode.process returns its input

---
 python/aces/clf/ProcessNode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index 1aa6822..e8fc8a3 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -306,7 +306,7 @@ class ProcessNode():
     def process(self, values, stride=0, verbose=False):
         if verbose:
             print( "ProcessNode::process - no op")
-        return value
+        return values
 
     # Setters and getters
     def setInBitDepth(self, name):
-- 
2.43.0


From 3bddf1ccf8c531c698ed7d452118445dcc745f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 13/60] fix: errors raised while reading a gzipped CLF are not
 replaced by a parse error

---
 python/aces/clf/ProcessList.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 274dc1d..18c135f 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -240,15 +240,14 @@ class ProcessList:
             try:
                 f = gzip.open(clfPath, 'rb')
                 tree = etree.parse(f)
-                root = tree.getroot()
-                self.read(root, strict)
                 f.close()
 
             # Read as normal XML otherwise
             except:
                 tree = etree.parse(clfPath)
-                root = tree.getroot()
-                self.read(root, strict)
+
+            root = tree.getroot()
+            self.read(root, strict)
 
         # Read as XML otherwise
         else:
-- 
2.43.0


From f48ce2778312ef6a85d97bcb97a36299eb1c2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 14/60] fix: self-contained writing expands References inside
 Groups and References

---
 python/aces/clf/ExtensionGroup.py     |  5 +----
 python/aces/clf/ExtensionReference.py |  2 +-
 python/aces/clf/ProcessList.py        | 18 ++++++++++++++----
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 3a80134..7907a00 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -86,10 +86,7 @@ class Group(ProcessNode):
 
         # Add ProcessNode elements
         for process in self._processes:
-            # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, ProcessList.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
-            process.write(node)
+            ProcessList.writeProcess(process, node, writeSelfContained)
         
         return node
     # write
diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 33ea651..8eaa4cc 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -108,7 +108,7 @@ class Reference(ProcessNode):
         if self._writeReferencedNodes:
             processes = self._processList.getProcesses()
             for process in processes:
-                process.write(tree)
+                ProcessList.ProcessList.writeProcess(process, tree, True)
             return tree
         else:
             node = ProcessNode.write(self, tree)
diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 18c135f..5262e81 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -92,6 +92,19 @@ class ProcessList:
         else:
             return None
 
+    # Write a ProcessNode, or the nodes that it refers to
+    @staticmethod
+    def writeProcess(process, tree, writeSelfContained=False):
+        # Choose whether to write Reference node or nodes referred to
+        if isinstance(process, ProcessList.getClass("Reference")):
+            process.setWriteReferencedNodes(writeSelfContained)
+            process.write(tree)
+        elif isinstance(process, ProcessList.getClass("Group")):
+            process.write(tree, writeSelfContained)
+        else:
+            process.write(tree)
+    # writeProcess
+
     def __init__(self, clfPath=None, strict=False):
         "%s - Initialize the standard class variables" % 'ProcessList'
         self._attributes = {}
@@ -137,10 +150,7 @@ class ProcessList:
 
         # Add ProcessNode elements
         for process in self._processes:
-            # Choose whether to write Reference node or nodes referred to
-            if isinstance(process, self.getClass("Reference")):
-                process.setWriteReferencedNodes(writeSelfContained)
-            process.write(tree)
+            self.writeProcess(process, tree, writeSelfContained)
         
         document = etree.ElementTree(tree)
 
-- 
2.43.0


From 8e156529a2f8cea33273a58cf3cb1ad77478b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 15/60] fix: an unresolved Reference is written as a Reference

---
 python/aces/clf/ExtensionReference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 8eaa4cc..42bcd05 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -105,7 +105,7 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes:
+        if self._writeReferencedNodes and self._processList != None:
             processes = self._processList.getProcesses()
             for process in processes:
                 ProcessList.ProcessList.writeProcess(process, tree, True)
-- 
2.43.0


From 92b9ed06a508e18810766f918d71eff129e6f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 16/60] fix: strict reading covers the children of a Group

---
 python/aces/clf/ExtensionGroup.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionGroup.py b/python/aces/clf/ExtensionGroup.py
index 7907a00..a477da3 100644
--- a/python/aces/clf/ExtensionGroup.py
+++ b/python/aces/clf/ExtensionGroup.py
@@ -62,6 +62,7 @@ class Group(ProcessNode):
         "%s - Initialize the standard class variables" % 'Group'
         ProcessNode.__init__(self, 'Group', inBitDepth, outBitDepth, id, name)
         self._processes = []
+        self._strict = False
 
         # Remove in and out bit depth attributes
         # XXX Ignoring for now. Should be revisited when discussed by the project committee
@@ -91,6 +92,11 @@ class Group(ProcessNode):
         return node
     # write
 
+    def read(self, element, strict=False):
+        self._strict = strict
+        ProcessNode.read(self, element, strict)
+    # read
+
     def readChild(self, child):
         elementType = self.getElementType(child.tag)
         elementClass = ProcessList.getClass(elementType)
@@ -98,15 +104,31 @@ class Group(ProcessNode):
 
         if elementClass != None:
             element = elementClass()
-            element.read(child)
 
             processNodeClass = ProcessList.getClass("ProcessNode")
             if issubclass(elementClass, processNodeClass):
+                element.read(child, strict=self._strict)
+
+                # Check that a given ProcessNode class is compatible with 
+                # the current feature set
+                if ( elementType in ["ExposureContrast", "Gamma", "Log", "Reference"] and
+                    not (getFeatureCompatibility() & featureSets["Autodesk"]) ):
+                    msg = "Unsupported feature : ProcessNode type %s" % elementType
+                    if self._strict:
+                        raise Errors.UnsupportedExtensionError(msg)
+                    else:
+                        print( "Group::read - %s" % msg )
+
                 self.addProcess( element )
             else:
+                element.read(child)
                 self.addElement( element )
         else:
-            print( "Group::read - Ignoring element : %s" % child.tag)
+            msg = "Ignoring element : %s" % child.tag
+            if self._strict:
+                raise Errors.UnknownProcessNodeError(msg)
+            else:
+                print( "Group::read - %s" % msg )
 
         return None
     # readChild
-- 
2.43.0


From 165050071d69996d8b2afa6d8123558b08c16324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 17/60] fix: CLF files with non-ASCII text can be written

---
 python/aces/clf/ProcessList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index 5262e81..dbc8931 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -70,7 +70,7 @@ class ProcessList:
         documentString = etree.tostring(document.getroot(), encoding='UTF-8')
             
         from xml.dom import minidom
-        prettyString = minidom.parseString(documentString).toprettyxml()
+        prettyString = minidom.parseString(documentString).toprettyxml(encoding='UTF-8')
        
         return prettyString
     #xmlPrettify
-- 
2.43.0


From 702c5cbe9838e0b617e58b17222280aa3b0bf2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 18/60] fix: cubic LUT1D interpolation falls back to linear
 without an error

---
 python/aces/clf/Array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 14cbbf7..5b666f9 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -511,7 +511,7 @@ class Array:
         dimensions = self._dimensions
 
         if dimensions[0] < 4 or not useSciPy or not sciPyEnabled:
-            return lookup1DLinear(position, channel)
+            return self.lookup1DLinear(position, channel)
 
         index = position*(dimensions[0]-1)
 
-- 
2.43.0


From fd121dcf446e9e4e10b5dc4fc59ee6625d7df25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 19/60] fix: nearest half-domain lookup returns the entry

---
 python/aces/clf/Array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 5b666f9..30ed40d 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -351,10 +351,9 @@ class Array:
 
         # Input half-float values are treated as 16 bit unsigned integers
         # Those integers are the index into the LUT
-        if not interpolate:
-            index = halfToUInt16(position)
-            value = self.lookup1D(index, channel)
-            result = value
+        index = halfToUInt16(position)
+        value = self.lookup1D(index, channel)
+        result = value
 
         return result
 
-- 
2.43.0


From c569e5b3b9bbcf2c366fd3122476a5cd0378c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 20/60] fix: 3D LUT lookup with different sizes per axis

---
 python/aces/clf/Array.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/Array.py b/python/aces/clf/Array.py
index 30ed40d..e6fda15 100644
--- a/python/aces/clf/Array.py
+++ b/python/aces/clf/Array.py
@@ -537,7 +537,7 @@ class Array:
         # Corner cases
         index3 = map(lambda a, b: max(0, min(a, b-1)), index3, dimensions)
 
-        index1 = (index3[0]*dimensions[0]*dimensions[1] + index3[1]*dimensions[1] + index3[2])*3 
+        index1 = ((index3[0]*dimensions[1] + index3[1])*dimensions[2] + index3[2])*3 
 
         #result = [values[index1], values[index1+1], values[index1+2]]
         result = values[index1:index1+3]
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index e164def..d562d93 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -226,7 +226,7 @@ def simple3DLUT(id,
                 samplez = float(z)/(resolution[2]-1)
 
                 # Red changes fastest
-                lutValueIndex = (((x*resolution[0] +y)*resolution[1] + z))*channels
+                lutValueIndex = ((x*resolution[1] + y)*resolution[2] + z)*channels
 
                 fvalue = f(samplex, sampley, samplez)
                 lutValues[lutValueIndex:lutValueIndex+channels] = fvalue
-- 
2.43.0


From 0d239ccced64fbacbcbe93208f9f9906afa49889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 21/60] fix: LUT3D.setArray leaves the caller's dimensions
 alone

---
 python/aces/clf/LUT3D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index d562d93..179b4de 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -87,8 +87,7 @@ class LUT3D(ProcessNode):
     # setIndexMaps
 
     def setArray(self, dimension, values, floatEncoding='string'):
-        dimensions = dimension
-        dimensions.append(3)
+        dimensions = list(dimension) + [3]
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
-- 
2.43.0


From 6d89b278068859664ef0abb38ec26418b9f48d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 22/60] fix: IndexMap with a cache accepts new values

---
 python/aces/clf/IndexMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 10d231e..14d69c9 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -82,7 +82,7 @@ class IndexMap:
     def setValues(self, values):
         self._values = values
         if self._useCachedProcess and self._values != [] and self._dimension != []:
-            self._createCachedEval()
+            self._createCachedProcess()
     def getValues(self):
         return self._values
 
-- 
2.43.0


From 79fccfc63fd241922a0d2d1c0e6fbad702cf2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 23/60] fix: LUT1D and LUT3D getIndexMapDimensions

---
 python/aces/clf/LUT1D.py | 2 +-
 python/aces/clf/LUT3D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 938bf0e..3e12624 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -112,7 +112,7 @@ class LUT1D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 179b4de..73ef35b 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -104,7 +104,7 @@ class LUT3D(ProcessNode):
         return self._array.getValues()
 
     def getIndexMapDimensions(self, channel):
-        return self._indexMaps[channel].getDimensions()
+        return self._indexMaps[channel].getDimension()
     def getIndexMapValues(self, channel):
         return self._indexMaps[channel].getValues()
 
-- 
2.43.0


From 6f7e8d1e870300cefbe7b9956a20a2d94d7c9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 24/60] fix: CTL 1D export writes each channel

---
 python/aces/lutFormats/LutCTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutCTL.py b/python/aces/lutFormats/LutCTL.py
index 62dbfbd..1358d85 100644
--- a/python/aces/lutFormats/LutCTL.py
+++ b/python/aces/lutFormats/LutCTL.py
@@ -176,7 +176,7 @@ class LutFormatCTL(LutFormat.LutFormat):
               for j in range(components):
                 fp.write('const float lut%d[] = {\n' % j)
                 for i in range(0, entries):
-                    fp.write('%s' % data[i * channels])
+                    fp.write('%s' % data[i * channels + j])
                     if i != (entries-1):
                       fp.write(',')
                     fp.write('\n')
-- 
2.43.0


From 183b42f356d3f57bcbf1e5567ffeda5e77e08268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 25/60] fix: 3D sampling and CSP 3D files with different sizes
 per axis

---
 python/aces/lutFormats/LutCSP.py   | 10 +++++-----
 python/aces/lutFormats/Sampling.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7d45565..146af24 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -334,7 +334,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         indexB = cspIndex/(resolution[0]*resolution[1])
 
                         # Convert from LUT index to sample number, CLF-style
-                        clfIndex = (indexR*resolution[0] + indexG)*resolution[1] + indexB
+                        clfIndex = (indexR*resolution[1] + indexG)*resolution[2] + indexB
                         clfIndex *= 3
 
                         # Convert from text to float
@@ -507,9 +507,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, resolution)) )
      
             # Note: CSP increments red fastest
-            for b in range(resolution[0]):
+            for b in range(resolution[2]):
                 for g in range(resolution[1]):
-                    for r in range(resolution[2]):
+                    for r in range(resolution[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, data[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
@@ -553,9 +553,9 @@ class LutFormatCSP(LutFormat.LutFormat):
             fp.write('%s\n' % ' '.join(map(str, lutResolution3d)) )
      
             # Note: CSP increments red fastest
-            for b in range(lutResolution3d[0]):
+            for b in range(lutResolution3d[2]):
                 for g in range(lutResolution3d[1]):
-                    for r in range(lutResolution3d[2]):
+                    for r in range(lutResolution3d[0]):
                         entry = " ".join(map(lambda x : "%3.6f" % x, samples3d[r][g][b]))
                         fp.write('%s\n' % entry)
         return True
diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c189838..1252157 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -334,7 +334,7 @@ def sample3D(processList,
     #print( "sample3D" )
 
     # Sample all values in 3D range
-    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
@@ -472,7 +472,7 @@ def sample1D3D1D(processList,
     #
     #print( "sampleAndWrite1D3D1D - create 3D LUT" )
 
-    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[0])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[2])]
+    samples3d = [[[[0.0,0.0,0.0] for i in xrange(lutResolution3d[2])] for i in xrange(lutResolution3d[1])] for i in xrange(lutResolution3d[0])]
 
     for r in range(lutResolution3d[0]):
         for g in range(lutResolution3d[1]):
-- 
2.43.0


From 88b315e6e0c0151539459ed59777befbaf9b9abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 26/60] fix: the output shaper of a 1D/3D/1D LUT is the inverse
 of its own shaper

---
 python/aces/lutFormats/Sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 1252157..c8c7f9f 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -514,7 +514,7 @@ def sample1D3D1D(processList,
         for lutIndex in range(lutResolution1dOut):
             sampleValue = float(lutIndex)/(lutResolution1dOut-1)
 
-            lutValue = shaperInPLInverse.process([sampleValue]*3)
+            lutValue = shaperOutPLInverse.process([sampleValue]*3)
 
             samples1dOut[lutIndex*3:(lutIndex+1)*3] = lutValue
     else:
-- 
2.43.0


From faff5894f49a12ab4e467a838a8c37f514e7384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 27/60] fix: inverse 1D LUTs of LUTs that end in equal values

---
 python/aces/lutFormats/Sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index c8c7f9f..6dca255 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -146,7 +146,7 @@ def generateLUT1DInverseResampled(resolution, samples, minInputValue, maxInputVa
             sampleIndexLow = lutIndexLow*channels + channel
             sampleIndexHigh = lutIndexHigh*channels + channel
 
-            if lutIndexLow == lutIndexHigh:
+            if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                 lutInterp = 0.0
             else:
                 lutInterp = (rangedValue - samples[sampleIndexLow])/(
@@ -223,7 +223,7 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 sampleIndexLow = lutIndexLow*channels + channel
                 sampleIndexHigh = lutIndexHigh*channels + channel
 
-                if lutIndexLow == lutIndexHigh:
+                if samples[sampleIndexLow] == samples[sampleIndexHigh]:
                     lutInterp = 0.0
                 else:
                     lutInterp = (inputValue - samples[sampleIndexLow])/(
-- 
2.43.0


From 1eaeeb92d8336def8cb8c387378605111930277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 28/60] fix: half-domain inverse 1D LUTs map back to the input
 range

---
 python/aces/lutFormats/Sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/aces/lutFormats/Sampling.py b/python/aces/lutFormats/Sampling.py
index 6dca255..3d4cc65 100644
--- a/python/aces/lutFormats/Sampling.py
+++ b/python/aces/lutFormats/Sampling.py
@@ -232,6 +232,9 @@ def generateLUT1DInverseHalfDomain(resolution, samples, minInputValue, maxInputV
                 # Find the output value
                 outputInterpolated = (lutInterp + lutIndexLow)/(inputResolution-1)
 
+                # Map from [0,1] to [minIn, maxIn]
+                outputInterpolated = outputInterpolated*(maxInputValue - minInputValue) + minInputValue
+
             inverseSample[channel] = outputInterpolated
 
         inverseSamples[inverseLutIndex*channels:(inverseLutIndex+1)*channels] = inverseSample
-- 
2.43.0


From 439b2293c7711608fca43a303870084ab136f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 29/60] fix: the input shaper of a CLF 1D/3D/1D LUT is applied
 forward

---
 python/aces/lutFormats/LutCLF.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/python/aces/lutFormats/LutCLF.py b/python/aces/lutFormats/LutCLF.py
index f14c496..7e7fca7 100644
--- a/python/aces/lutFormats/LutCLF.py
+++ b/python/aces/lutFormats/LutCLF.py
@@ -68,7 +68,6 @@ __version__ = '.'.join((__major_version__,
 import os
 import clf
 
-import Sampling
 import LutFormat
 
 class LutFormatCLF(LutFormat.LutFormat):
@@ -125,23 +124,26 @@ class LutFormatCLF(LutFormat.LutFormat):
                        samples1dOut,
                        lutResolution1dOut,
                        outputMin,
-                       outputMax,
-                       inversesUseIndexMaps=True,
-                       inversesUseHalfDomain=True):
+                       outputMax):
         lutpns = []
 
         # Create the input shaper
         if samples1dIn:
-            if inversesUseIndexMaps:
-                #print( "Generating inverse of 1D LUT using Index Maps")
-                lutpnInverses = Sampling.generateLUT1DInverseIndexMap([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)
-            elif inversesUseHalfDomain:
-                #print( "Generating full half-domain inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseHalfDomain([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax, rawHalfs=True)
-            else:
-                #print( "Generating resampled inverse of 1D LUT")
-                lutpnInverses = Sampling.generateLUT1DInverseResampled([lutResolution1dIn, 3], samples1dIn, inputMin, inputMax)            
-            lutpns.extend(lutpnInverses)
+            # Normalize the range covered by the input shaper samples
+            if inputMin != 0.0 or inputMax != 1.0:
+                rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "shaper_range", "shaper_range")
+                rangepn.setMinInValue(inputMin)
+                rangepn.setMaxInValue(inputMax)
+                rangepn.setMinOutValue(0.0)
+                rangepn.setMaxOutValue(1.0)
+
+                lutpns.append(rangepn)
+
+            interpolation = 'linear'
+            lutpn = clf.LUT1D(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "lut1d_in", "lut1d_in", interpolation=interpolation)
+            lutpn.setArray(3, samples1dIn)
+
+            lutpns.append(lutpn)
 
         # Create the 3D LUT
         clfSamples = [0.0]*(lutResolution3d[0]*lutResolution3d[1]*lutResolution3d[2])*3
-- 
2.43.0


From 11b96375b3f96758c39d439f8836862473c1b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 30/60] fix: CSP data may follow the prelut and metadata
 without a blank line

---
 python/aces/lutFormats/LutCSP.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 146af24..e421443 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -275,8 +275,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                         #print( "metadata line : %s" % line.rstrip() )
 
                 #print( "metadata : %s" % metadata)
-                dataStart += 1
-                
+
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
                     dataStart += 1
@@ -309,7 +308,7 @@ class LutFormatCSP(LutFormat.LutFormat):
                 #
                 # Read LUT data
                 #
-                dataStart = dataStart+10
+                dataStart = dataStart+9
 
                 while lines[dataStart].rstrip() == '':
                     #print( "blank line")
-- 
2.43.0


From c05803d4c906ba205088dddc4c7a47b826d6e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 31/60] fix: CSP preluts that differ per channel or only change
 the output

---
 python/aces/lutFormats/LutCSP.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index e421443..7a57bff 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -171,10 +171,6 @@ class LutFormatCSP(LutFormat.LutFormat):
         # resolution of the resampled lut relative to the source
         outputResolution = inputResolution
 
-        # If the prelut only affects the range, skip this step
-        if inputResolution > 2:
-            outputResolution *= 2
-
         # Find the minimum and maximum input
         # XXX
         # We take the min and max of all three preluts because the Range node
@@ -185,6 +181,12 @@ class LutFormatCSP(LutFormat.LutFormat):
 
         #print( inputResolution, minInputValue, maxInputValue )
 
+        # If the prelut only affects the range, skip the lut step
+        rangeOnly = all([prelutInput == [minInputValue, maxInputValue] and prelutOutput == [0.0, 1.0]
+            for (prelutInput, prelutOutput) in cspPreluts])
+        if not rangeOnly:
+            outputResolution *= 2
+
         # Create a Range node to normalize data from that range [min, max]
         rangepn = clf.Range(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "prelut_range", "prelut_range")
         rangepn.setMinInValue(minInputValue)
@@ -195,7 +197,7 @@ class LutFormatCSP(LutFormat.LutFormat):
         prelutpns.append(rangepn)
 
         # If the prelut only affects the range, skip generating a lut to represent it
-        if inputResolution > 2:
+        if not rangeOnly:
             # Generate 1d LUT by running values through the
             # - inverse normalization
             # - the cspprelut
@@ -212,15 +214,19 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                 # For each channel
                 for channel in range(len(cspPreluts)):
+                    # Stay within the range of this channel's prelut
+                    channelResolution = len(cspPreluts[channel][0])
+                    channelValue = max(cspPreluts[channel][0][0], min(cspPreluts[channel][0][-1], rangedValue))
+
                     # Find the location of the de-normalized value in the prelut
-                    for prelutIndex in range(inputResolution):
-                        if cspPreluts[channel][0][prelutIndex] > rangedValue:
+                    for prelutIndex in range(1, channelResolution):
+                        if cspPreluts[channel][0][prelutIndex] > channelValue:
                             break
 
                     # Get the interpolation value
                     prelutIndexLow = max(0, prelutIndex-1)
-                    prelutIndexHigh = min(inputResolution-1, prelutIndex)
-                    prelutInterp = (rangedValue - cspPreluts[channel][0][prelutIndexLow])/(
+                    prelutIndexHigh = min(channelResolution-1, prelutIndex)
+                    prelutInterp = (channelValue - cspPreluts[channel][0][prelutIndexLow])/(
                         cspPreluts[channel][0][prelutIndexHigh] - cspPreluts[channel][0][prelutIndexLow])
 
                     # Find the output value
-- 
2.43.0


From 2e974b27b05980b73001ff58a46b5fb1ebac0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 32/60] fix: CSP 1D/3D/1D export without an input shaper

---
 python/aces/lutFormats/LutCSP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 7a57bff..99575d3 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -531,6 +531,11 @@ class LutFormatCSP(LutFormat.LutFormat):
 
         #print( ' '.join(map(str, lutResolution3d)) )
 
+        # Without an input shaper, the prelut only affects the range
+        if samples1dIn == None:
+            lutResolution1dIn = 2
+            samples1dIn = [0.0]*3 + [1.0]*3
+
         with open(lutPath, 'w') as fp:
             fp.write('CSPLUTV100\n')
             fp.write('3D\n')
-- 
2.43.0


From 8ec9d8dab111109e646e01ce1fc51baf28a15931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 33/60] fix: SPI1D files with blank lines can be read

---
 python/aces/lutFormats/LutSPI.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 948e3ed..716368a 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -170,6 +170,9 @@ class LutFormatSPI(LutFormat.LutFormat):
             #print( "line : %s" % line )
             tokens = line.split()
 
+            if not tokens:
+                continue
+
             if tokens[0] == "Version":
                 version = int(tokens[1])
                 if version != 1:
-- 
2.43.0


From 15c9769b4f88c825b4aaf668c11247578712110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 34/60] fix: SPI3D entries are placed by the indices printed
 with them

---
 python/aces/lutFormats/LutSPI.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index 716368a..a5caa27 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -257,14 +257,15 @@ class LutFormatSPI(LutFormat.LutFormat):
                     tokens = map(int, lines[2].split())
                     resolution = tokens
 
-                    # This assumes that the value are printed in order
-                    # with blue incrementing fastest like the CLF specification
-                    # This is generally true, but should be generalized at some
-                    # point to take into account the indices printed as the 
-                    # first three values on each line
+                    # The first three values on each line are the indices of
+                    # the entry. Blue increments fastest in the CLF specification
+                    samples = [0.0]*resolution[0]*resolution[1]*resolution[2]*3
                     for line in lines[3:]:
-                        tokens = map(float, line.split())
-                        samples.extend(tokens[3:]) 
+                        tokens = line.split()
+                        if len(tokens) >= 6:
+                            (r, g, b) = map(int, tokens[:3])
+                            index = ((r*resolution[1] + g)*resolution[2] + b)*3
+                            samples[index:index+3] = map(float, tokens[3:6])
 
         #
         # Create ProcessNodes
-- 
2.43.0


From 0c7d96a256b2b283bc570db82a6bd5455b9bc6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 35/60] fix: convertCLFtoLUT honours --lutResolution3d

---
 python/aces/convertCLFtoLUT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/convertCLFtoLUT.py b/python/aces/convertCLFtoLUT.py
index 7627e64..d5ef078 100644
--- a/python/aces/convertCLFtoLUT.py
+++ b/python/aces/convertCLFtoLUT.py
@@ -193,10 +193,10 @@ def main():
     if options.lutResolution1d3d1d is not None:
         #print( options.shaperIn )
         shaperInLutResolution = int(options.lutResolution1d3d1d[0][0])
-        lutResolution3d = int(options.lutResolution1d3d1d[0][1])
+        shaperLutResolution3d = int(options.lutResolution1d3d1d[0][1])
         shaperOutLutResolution = int(options.lutResolution1d3d1d[0][2])
     else:
-        (shaperInLutResolution, lutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
+        (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution) = (1024, 33, 2)
 
     # Figure out the data format
     lutDataFormat = lutFormats.LUTDATAFORMAT_1D
@@ -222,7 +222,7 @@ def main():
     print( "%25s : %s" % ("data format", lutDataFormat))
     print( "%25s : %s" % ("1D lut resolution", lutResolution1d))
     print( "%25s : %s" % ("3D lut resolution", lutResolution3d))
-    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, lutResolution3d, shaperOutLutResolution)))
+    print( "%25s : %s" % ("1D/3D/1D lut resolution", "%s, %s, %s" % (shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution)))
     print( "%25s : %s" % ("min input value", inputMinValue))
     print( "%25s : %s" % ("max input value", inputMaxValue))
     print( "%25s : %s" % ("shaper in", "%s, %s, %s" % (shaperInType, shaperInMin, shaperInMax)))
@@ -238,7 +238,7 @@ def main():
                         lutDataFormat,
                         lutResolution1d,
                         lutResolution3d,
-                        [shaperInLutResolution, lutResolution3d, shaperOutLutResolution],
+                        [shaperInLutResolution, shaperLutResolution3d, shaperOutLutResolution],
                         inputMinValue,
                         inputMaxValue,
                         [shaperInType, shaperInMin, shaperInMax],
-- 
2.43.0


From b9d60296ce107311d1d4392d37c0067c8c9ba9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 36/60] fix: single-threaded image filtering processes every
 row

---
 python/aces/filterImageWithCLF.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index e79cceb..ba61501 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -585,9 +585,7 @@ def filterImageWithCLF(inputPath,
     else:
         print( "Filtering image - single threaded" )
 
-        #for j in range(height):
-        j = 5
-        if True:
+        for j in range(height):
             # Using filterRow_stride instead of filterRow_pixel
             # Processing a full row is ~10% faster than processing individual pixels
             filterRow_stride(j,
-- 
2.43.0


From cffb4c8fdab352ab28e16acec9f8325d93e413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 37/60] fix: images with one row can be filtered

---
 python/aces/filterImageWithCLF.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index ba61501..f9aaa05 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -344,8 +344,8 @@ def filterRow_pixel(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1.0, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     for i in range(width):
         index = (row*width + i)*channels
@@ -388,8 +388,8 @@ def filterRow_stride(row,
     processedPixels,
     verbose):
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1.0, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     index = (row*width)*channels
 
@@ -437,8 +437,8 @@ def filterRow_parallel(row,
     if verbose:
         print( "process %d - row %d" % (os.getpid(), row) )
 
-    if row%math.ceil((height-1)/100.0) == 0:
-        print( "%3.1f - row %d / %d" % (row/(height-1.0)*100.0, row, height-1) )
+    if row%max(1.0, math.ceil((height-1)/100.0)) == 0:
+        print( "%3.1f - row %d / %d" % (row/max(1.0, height-1.0)*100.0, row, height-1) )
 
     # Copy a single row
     ovalue = pixels
-- 
2.43.0


From ac24b7cfefcbd04cea37aabc155f6ef961153fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 38/60] fix: an image that cannot be opened is reported

---
 python/aces/filterImageWithCLF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index f9aaa05..10371d5 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -194,7 +194,7 @@ def readPixelArray(inputPath,
             print( "Unpacking half-float values" )
             sourceData = oiioFloatPixelsToNPHalfArray(width, height, channels, sourceData)
     else:
-        (sourceData, bitDepth, width, height, channels, metadata) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
+        (sourceData, bitDepth, width, height, channels, metadata, channelnames) = (None, clf.bitDepths["UINT10"], 0, 0, 0, None, None)
 
     return (sourceData, bitDepth, width, height, channels, metadata, channelnames)
 # readPixelArray
@@ -492,7 +492,7 @@ def filterImageWithCLF(inputPath,
     t0 = timeit.default_timer()
 
     pixels, inBitDepth, width, height, channels, metadata, channelnames = readPixelArray(inputPath)
-    if pixels == None:
+    if pixels is None:
         print( "\nImage %s could not be opened. Filtering aborted.\n" % inputPath )
         return
     #print( len(pixels), bitDepth, width, height, channels )
-- 
2.43.0


From adbbef3df65fa2d7c961ec1eb329001a24acff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 39/60] fix: integer images are written rounded and clamped
 instead of truncated and wrapped

---
 python/aces/filterImageWithCLF.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 10371d5..8690411 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -229,7 +229,7 @@ def writePixelArray(outputPath,
     if type == oiio.UINT8:
         pixels8 = np.zeros(width*height*channels, dtype=np.uint8)
         for i in range(len(pixels)):
-            pixels8[i] = int(pixels[i])
+            pixels8[i] = int(min(255.0, max(0.0, pixels[i])) + 0.5)
         pixels = pixels8
 
     # Convert float values to 16-bit unsigned integer
@@ -244,10 +244,11 @@ def writePixelArray(outputPath,
         elif bitDepth == clf.bitDepths["UINT12"]:
             bitShift = 4
 
+        maxValue = float(65535 >> bitShift)
         pixels16 = np.zeros(width*height*channels, dtype=np.uint16)
         # Cast to 16 bit and reset integer bit-depth if necessary
         for i in range(len(pixels)):
-            pixels16[i] = int(pixels[i]) << bitShift
+            pixels16[i] = int(min(maxValue, max(0.0, pixels[i])) + 0.5) << bitShift
         pixels = pixels16
 
     # OIIO doesn't store half-float values directly, so this will
-- 
2.43.0


From 17228b4b5c998ce8a1449ae55c7438b4fcf4a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 40/60] fix: float images can be written from integer images
 that carry BitsPerSample

---
 python/aces/filterImageWithCLF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index 8690411..a888ae1 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -272,7 +272,9 @@ def writePixelArray(outputPath,
         clf.bitDepths["UINT8"] : 8,
         clf.bitDepths["UINT10"] : 10,
         clf.bitDepths["UINT12"] : 12,
-        clf.bitDepths["UINT16"] : 16
+        clf.bitDepths["UINT16"] : 16,
+        clf.bitDepths["FLOAT16"] : 16,
+        clf.bitDepths["FLOAT32"] : 32
     }
 
     # Add the metadata tags
-- 
2.43.0


From 601c0c21b141f61921b7d1c152118aad5b68ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 41/60] fix: only 10 and 12 bit samples are shifted when
 reading 16 bit images

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index a888ae1..c60302d 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -164,7 +164,7 @@ def readPixelArray(inputPath,
                 if 'oiio:BitsPerSample' in metanames:
                     oiioBitDepth = metadata[ metanames.index( "oiio:BitsPerSample" ) ].value
 
-                    if type == oiio.UINT16:
+                    if type == oiio.UINT16 and oiioBitDepth in [10, 12]:
                         bitShift = (16 - oiioBitDepth)
                         print( "Reading as 16-bit int, then shifting by %d bits" % bitShift )
 
-- 
2.43.0


From e666a2c003a0397578d02828d5cfc57937bed216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 42/60] fix: verbose output of filterRow_pixel

---
 python/aces/filterImageWithCLF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index c60302d..f8f0e30 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -368,7 +368,7 @@ def filterRow_pixel(row,
             pvalue = OutRange.process(pvalue)
 
         if verbose:
-            print( "Processed %04d, %04d : %s -> %s" % (i, j, ovalue, pvalue))
+            print( "Processed %04d, %04d : %s -> %s" % (i, row, ovalue, pvalue))
 
         for c in range(channels):
             processedPixels[index + c] = pvalue[c]
-- 
2.43.0


From 56ce129be9cceb5427c3152ec1a94c166b5b09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 43/60] fix: OCIO 4x4 matrices with an alpha row or column keep
 it, and their offset

---
 python/aces/convertOCIOtoCLF.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 4c6dd2d..aacdc3f 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -79,8 +79,8 @@ def convertMatrixToProcessNode(matrix, offset, direction):
     if direction == 'forward':
         # Check to see if this is really a 3x3 matrix hidden inside a 4x4
         if( len(matrix) == 16 and 
-            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11 == 0.0] and
-                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14 == 0.0] and matrix[15 == 1.0]) ):
+            ( matrix[ 3] == 0.0 and matrix[ 7] == 0.0 and matrix[11] == 0.0 and
+                matrix[12] == 0.0 and matrix[13] == 0.0 and matrix[14] == 0.0 and matrix[15] == 1.0) ):
 
             # Add offset into matrix if possible
             if( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 ):
@@ -88,6 +88,7 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 matrix[3] = offset[0]
                 matrix[7] = offset[1]
                 matrix[11] = offset[2]
+                matrix = matrix[0:12]
                 # CLF ignores the alpha offset
 
             # Or just copy into a smaller matrix
@@ -100,6 +101,17 @@ def convertMatrixToProcessNode(matrix, offset, direction):
                 resolution = [3, 3, 3]
                 matrix = matrix33
 
+        # Add the offset to a full 4x4 matrix if necessary
+        elif( len(matrix) == 16 and
+            ( offset[0] != 0.0 or offset[1] != 0.0 or offset[2] != 0.0 or offset[3] != 0.0 ) ):
+            matrix45 = []
+            for i in range(4):
+                matrix45.extend(matrix[i*4:(i+1)*4])
+                matrix45.append(offset[i])
+
+            resolution = [4, 5, 3]
+            matrix = matrix45
+
         mpn1 = clf.Matrix(clf.bitDepths["FLOAT16"], clf.bitDepths["FLOAT16"], "matrix1", "matrix1")
         mpn1.setMatrix(resolution, matrix)
     else:
-- 
2.43.0


From 3cb44a3b43ff42fed2fdd2a0584befea73831439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 44/60] fix: references without a path stay unresolved

---
 python/aces/clf/ExtensionReference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index 42bcd05..ef49de2 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -62,8 +62,8 @@ from ProcessNode import *
 # Ignores the 'alias' attribute for now
 def resolvePath(path, basePath, alias):
     fullPath = None
-    if 'path' != '':
-        if 'basePath' != '':
+    if path != '':
+        if basePath != '':
             fullPath = os.path.join(basePath, path)
             #print( fullPath )
         else:
-- 
2.43.0


From ab37aae5877c0395ff87cc208024f631ce30834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 45/60] fix: Reference.setPaths keeps the written attributes in
 step

---
 python/aces/clf/ExtensionReference.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index ef49de2..df1b87e 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -91,6 +91,12 @@ class Reference(ProcessNode):
     # __init__
 
     def setPaths(self, path='', basePath='', alias=''):
+        for name, value in [('alias', alias), ('path', path), ('basePath', basePath)]:
+            if value != '':
+                self._attributes[name] = value
+            elif name in self._attributes:
+                del self._attributes[name]
+
         self._resolvedPath = resolvePath(path, basePath, alias)
         if self._resolvedPath != None and os.path.exists(self._resolvedPath):
             self._processList = ProcessList.ProcessList(self._resolvedPath)
-- 
2.43.0


From d2a8700b51344bad4369f1a5d1a4fc3f3f345a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 46/60] fix: IndexMap drops its cache whenever its values
 change

---
 python/aces/clf/IndexMap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/aces/clf/IndexMap.py b/python/aces/clf/IndexMap.py
index 14d69c9..108f395 100644
--- a/python/aces/clf/IndexMap.py
+++ b/python/aces/clf/IndexMap.py
@@ -81,6 +81,7 @@ class IndexMap:
 
     def setValues(self, values):
         self._values = values
+        self._processCached = None
         if self._useCachedProcess and self._values != [] and self._dimension != []:
             self._createCachedProcess()
     def getValues(self):
@@ -168,6 +169,7 @@ class IndexMap:
             if key == 'dim':
                 self._dimension = int(value)
 
+        self._processCached = None
         self._values = []
         self._values.append( map(lambda p: float(p.split('@')[0]), element.text.split()) )
         self._values.append( map(lambda p: float(p.split('@')[1]), element.text.split()) )
-- 
2.43.0


From 6d303ac626ef166fd67c0c2a1df7a007547d00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 47/60] fix: ids and names that read like booleans stay text

---
 python/aces/clf/ProcessNode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ProcessNode.py b/python/aces/clf/ProcessNode.py
index e8fc8a3..6138059 100644
--- a/python/aces/clf/ProcessNode.py
+++ b/python/aces/clf/ProcessNode.py
@@ -196,7 +196,7 @@ class ProcessNode():
         # Store attributes
         for key, value in element.attrib.iteritems():
             # Convert text to booleans where appropriate
-            if value in ["True", "False", "true", "false"]:
+            if value in ["True", "False", "true", "false"] and not key in ["id", "name"]:
                 value = (value in ["True", "true"])
             self.setAttribute(key, value)
 
-- 
2.43.0


From c559d9fc78855bd644b634c296d60784003aa15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 48/60] fix: the namespace of a document is kept when it is
 read

---
 python/aces/clf/ProcessList.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/aces/clf/ProcessList.py b/python/aces/clf/ProcessList.py
index dbc8931..3ad63bc 100644
--- a/python/aces/clf/ProcessList.py
+++ b/python/aces/clf/ProcessList.py
@@ -201,6 +201,10 @@ class ProcessList:
         for key, value in root.attrib.iteritems():
             self.setAttribute(key, value)
 
+        # The parser folds the namespace into the tag
+        if root.tag[0] == '{':
+            self.setNamespace(root.tag[1:root.tag.find('}')])
+
         # Read child elements
         for child in root:
             # Find the Python class associated with this XML element tag
-- 
2.43.0


From 9ac8e69d7268d68c3cfd386e7e067c9325e8dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 49/60] fix: Gamma moncurve styles handle channels without an
 offset

---
 python/aces/clf/ExtensionGamma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/aces/clf/ExtensionGamma.py b/python/aces/clf/ExtensionGamma.py
index 9320f93..164b841 100644
--- a/python/aces/clf/ExtensionGamma.py
+++ b/python/aces/clf/ExtensionGamma.py
@@ -158,8 +158,8 @@ class Gamma(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = (offset[i]/(gamma[i]-1))
-                    if( outValue[i] <= pivot ):
+                    # Without an offset there is no linear segment
+                    if( offset[i] != 0.0 and outValue[i] <= offset[i]/(gamma[i]-1) ):
                         outValue[i] = (gamma[i]-1.0)/offset[i]*pow(gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)), gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, (outValue[i] + offset[i])/(offset[i] + 1.0)), gamma[i])
@@ -170,8 +170,8 @@ class Gamma(ProcessNode):
                 for i in range(3):
                     outValue[i] = bitDepthToNormalized(outValue[i], inBitDepth)
 
-                    pivot = pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i])
-                    if( outValue[i] <= pivot ):
+                    if( offset[i] != 0.0 and
+                        outValue[i] <= pow( gamma[i]*offset[i]/((gamma[i]-1.0)*(offset[i]+1.0)) , gamma[i]) ):
                         outValue[i] = pow((gamma[i]-1.0)/offset[i], gamma[i]-1.0)*pow((1.0 + offset[i])/gamma[i], gamma[i])*outValue[i]
                     else:
                         outValue[i] = pow(max(0.0, outValue[i]), 1.0/gamma[i])*(1.0 + offset[i]) - offset[i]
-- 
2.43.0


From 0e515a0a2c20a8bc8424efa9d2f299512214309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 50/60] fix: bypassed references stay references in
 self-contained files

---
 python/aces/clf/ExtensionReference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionReference.py b/python/aces/clf/ExtensionReference.py
index df1b87e..8e7bbe9 100644
--- a/python/aces/clf/ExtensionReference.py
+++ b/python/aces/clf/ExtensionReference.py
@@ -111,7 +111,8 @@ class Reference(ProcessNode):
 
     # Read / Write
     def write(self, tree):
-        if self._writeReferencedNodes and self._processList != None:
+        bypassed = not (self.getAttribute('bypass') in [None, False])
+        if self._writeReferencedNodes and self._processList != None and not bypassed:
             processes = self._processList.getProcesses()
             for process in processes:
                 ProcessList.ProcessList.writeProcess(process, tree, True)
-- 
2.43.0


From e6179b8e74e7e5c235fa0b1d33e245c3a66fa352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 51/60] fix: CSP files undo the output shaper in the 3D LUT

---
 python/aces/lutFormats/LutCSP.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 99575d3..e6215b6 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -144,6 +144,12 @@ class LutFormatCSP(LutFormat.LutFormat):
                     outputMin,
                     outputMax):
         #print( "%s format write 1D 3D 1D - %s" % (LutFormatCSP.formatType, lutPath) )
+        # The format has no LUT after the 3D LUT, so the output samples are 
+        # applied to the 3D LUT values
+        if samples1dOut != None:
+            samples3d = [[[LutFormatCSP.applySamples1D(value, samples1dOut, lutResolution1dOut) 
+                for value in row] for row in plane] for plane in samples3d]
+
         return LutFormatCSP.writeCSP1D3D(lutPath,
                                          samples1dIn,
                                          lutResolution1dIn,
@@ -152,6 +158,16 @@ class LutFormatCSP(LutFormat.LutFormat):
                                          samples3d,
                                          lutResolution3d)
 
+    @staticmethod
+    def applySamples1D(value, samples1d, lutResolution1d):
+        outValue = []
+        for c in range(3):
+            position = max(0.0, min(1.0, value[c]))*(lutResolution1d-1)
+            low = min(int(position), lutResolution1d-2)
+            interp = position - low
+            outValue.append(samples1d[low*3 + c]*(1.0 - interp) + samples1d[(low+1)*3 + c]*interp)
+        return outValue
+
     @staticmethod
     def generateCLFPrelut(cspPreluts):
         '''
-- 
2.43.0


From e971a08fb6071101e3c13258a0bbd50ebc328b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 52/60] fix: reading a format that can not be read reports it

---
 python/aces/lutFormats/LutFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/lutFormats/LutFormat.py b/python/aces/lutFormats/LutFormat.py
index 85d5c85..613943e 100644
--- a/python/aces/lutFormats/LutFormat.py
+++ b/python/aces/lutFormats/LutFormat.py
@@ -146,7 +146,7 @@ class LutFormat():
              interpolation='linear',
              inversesUseIndexMaps=True, 
              inversesUseHalfDomain=True):
-        print( "Format %s can not be read" % self.formatType )
+        print( "Format %s can not be read" % cls.formatType )
         return False
 
     @classmethod
-- 
2.43.0


From 0f46f70e1499df10178c19b9aacf1c0b8ba5153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 53/60] fix: inverses of SPI 3D and CSP LUTs are refused
 instead of ignored

---
 python/aces/convertOCIOtoCLF.py  | 3 ++-
 python/aces/lutFormats/LutCSP.py | 8 ++++++--
 python/aces/lutFormats/LutSPI.py | 8 ++++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index aacdc3f..9ed2dca 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -168,7 +168,8 @@ def convertTransformsToProcessNodes( ocioTransform,
             inversesUseHalfDomain=inversesUseHalfDomain,
             returnProcessNodes=True)
         #print( "Created %d CLF process nodes" % len(lutpns) )
-        pns.extend( lutpns )
+        if lutpns != None:
+            pns.extend( lutpns )
 
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index e6215b6..969a950 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -262,10 +262,14 @@ class LutFormatCSP(LutFormat.LutFormat):
         return prelutpns
 
     # XXX
-    # Need to warn user about the lack of an inverse for 3D LUTs
-    # Or implement one. That would be slow in Python (or C, or OpenCL) though
+    # There is no inverse for CSP LUTs. 
+    # Implementing one for 3D LUTs would be slow in Python (or C, or OpenCL)
     @staticmethod
     def readCSP(lutPath, inverse=False, interpolation='linear'):
+        if inverse:
+            print( "Inverses of CSP LUTs are not supported - %s" % lutPath )
+            return []
+
         with open(lutPath) as f:
             lines = f.read().splitlines()
 
diff --git a/python/aces/lutFormats/LutSPI.py b/python/aces/lutFormats/LutSPI.py
index a5caa27..8a047aa 100644
--- a/python/aces/lutFormats/LutSPI.py
+++ b/python/aces/lutFormats/LutSPI.py
@@ -230,10 +230,14 @@ class LutFormatSPI(LutFormat.LutFormat):
         return lutpns
 
     # XXX
-    # Need to warn user about the lack of an inverse for 3D LUTs
-    # Or implement one. That would be slow in Python (or C, or OpenCL) though
+    # There is no inverse for 3D LUTs. 
+    # Implementing one would be slow in Python (or C, or OpenCL)
     @staticmethod
     def readSPI3D(lutPath, inverse=False, interpolation='linear'):
+        if inverse:
+            print( "Inverses of 3D LUTs are not supported - %s" % lutPath )
+            return []
+
         with open(lutPath) as f:
             lines = f.read().splitlines()
 
-- 
2.43.0


From 8179c0012239c7ea04df0896b9ea374bbe55b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 54/60] fix: 10 and 12 bit overrides shift the pixels read from
 images

---
 python/aces/filterImageWithCLF.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/aces/filterImageWithCLF.py b/python/aces/filterImageWithCLF.py
index f8f0e30..4fe6c7a 100644
--- a/python/aces/filterImageWithCLF.py
+++ b/python/aces/filterImageWithCLF.py
@@ -175,6 +175,12 @@ def readPixelArray(inputPath,
             else:
                 type = clfBitDepthToOIIOBitDepth[bitDepthOverride]
                 bitDepth = bitDepthOverride
+
+                # 10 and 12 bit values are read as 16-bit
+                if bitDepth == clf.bitDepths["UINT10"]:
+                    bitShift = 6
+                elif bitDepth == clf.bitDepths["UINT12"]:
+                    bitShift = 4
         else:
             bitDepth = oiioBitDepthToCLFBitDepth[type]
 
-- 
2.43.0


From 8114e3e342078a8e4a17046d03301e3c82c23e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 55/60] fix: inverse OCIO group transforms convert their
 members inverted, last first

---
 python/aces/convertOCIOtoCLF.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 9ed2dca..18d3bd4 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -137,26 +137,35 @@ def convertLogToProcessNode(base, direction):
     
     return log
 
+# The direction of a transform, flipped if it is part of an inverted group
+def getTransformDirection(ocioTransform, inverse):
+    forward = ocioTransform.getDirection() == 'forward'
+    return 'forward' if forward != inverse else 'inverse'
+
 def convertTransformsToProcessNodes( ocioTransform, 
                                      lutSearchPath=None,
                                      inversesUseIndexMaps=True, 
-                                     inversesUseHalfDomain=True ):
+                                     inversesUseHalfDomain=True,
+                                     inverse=False ):
     pns = []
 
     #print( ocioTransform )
 
     if isinstance(ocioTransform, OCIO.GroupTransform):
         print( "Group Transform" )
-        children = ocioTransform.getTransforms()
+        children = list(ocioTransform.getTransforms())
+        inverse = getTransformDirection(ocioTransform, inverse) != 'forward'
+        if inverse:
+            children.reverse()
         for childTransform in children:
             childpns = convertTransformsToProcessNodes(childTransform, 
-                lutSearchPath, inversesUseIndexMaps, inversesUseHalfDomain)
+                lutSearchPath, inversesUseIndexMaps, inversesUseHalfDomain, inverse)
             pns.extend( childpns )
 
     elif isinstance(ocioTransform, OCIO.FileTransform):
         lutPath = ocioTransform.getSrc()
         interpolation = ocioTransform.getInterpolation()
-        direction = ocioTransform.getDirection()
+        direction = getTransformDirection(ocioTransform, inverse)
         print( "File Transform : %s, %s, %s" % (lutPath, interpolation, direction) )
 
         if lutSearchPath != None:
@@ -174,7 +183,7 @@ def convertTransformsToProcessNodes( ocioTransform,
     elif isinstance(ocioTransform, OCIO.MatrixTransform):
         matrix = ocioTransform.getMatrix()
         offset = ocioTransform.getOffset()
-        direction = ocioTransform.getDirection()
+        direction = getTransformDirection(ocioTransform, inverse)
         print( "Matrix Transform : %s, %s, %s" % (matrix, offset, direction) )
         matrixpn = convertMatrixToProcessNode(matrix, offset, direction)
         if matrixpn != None:
@@ -182,7 +191,7 @@ def convertTransformsToProcessNodes( ocioTransform,
 
     elif isinstance(ocioTransform, OCIO.LogTransform):
         base = ocioTransform.getBase()
-        direction = ocioTransform.getDirection()
+        direction = getTransformDirection(ocioTransform, inverse)
         print( "Log Transform : %s, %s" % (base, direction) )
         logpn = convertLogToProcessNode(base, direction)
         if logpn != None:
-- 
2.43.0


From f7a69a15f9e646b9041e213e66422c0dce56a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 56/60] fix: OCIO color spaces that define the other direction
 only are converted through its inverse

---
 python/aces/convertOCIOtoCLF.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/aces/convertOCIOtoCLF.py b/python/aces/convertOCIOtoCLF.py
index 18d3bd4..237ca8e 100644
--- a/python/aces/convertOCIOtoCLF.py
+++ b/python/aces/convertOCIOtoCLF.py
@@ -203,6 +203,13 @@ def convertTransformsToProcessNodes( ocioTransform,
 
     return pns
 
+# OCIO inverts the transform of the opposite direction if the one asked for is missing
+def getColorSpaceTransform(colorSpace, direction, oppositeDirection):
+    transform = colorSpace.getTransform( direction )
+    if transform:
+        return (transform, False)
+    return (colorSpace.getTransform( oppositeDirection ), True)
+
 def convertOCIOtoCLF(configPath, 
                      sourceColorSpaceNames, 
                      destColorSpaceNames, 
@@ -227,11 +234,13 @@ def convertOCIOtoCLF(configPath,
     for sourceColorSpaceName in sourceColorSpaceNames:
         # Get the OCIO transforms
         sourceColorSpace = config.getColorSpace(sourceColorSpaceName)
-        sourceTransform = sourceColorSpace.getTransform( OCIO.Constants.COLORSPACE_DIR_TO_REFERENCE )
+        sourceTransform, inverse = getColorSpaceTransform( sourceColorSpace,
+            OCIO.Constants.COLORSPACE_DIR_TO_REFERENCE, OCIO.Constants.COLORSPACE_DIR_FROM_REFERENCE )
 
         # Convert to CLF ProcessNodes
         pns = convertTransformsToProcessNodes( sourceTransform, lutSearchPath=configLUTPath, 
-            inversesUseIndexMaps=inversesUseIndexMaps, inversesUseHalfDomain=inversesUseHalfDomain )
+            inversesUseIndexMaps=inversesUseIndexMaps, inversesUseHalfDomain=inversesUseHalfDomain,
+            inverse=inverse )
 
         # Rename and add a description to each ProcessNode
         specificDescription = "Convert %s to reference" % sourceColorSpaceName
@@ -255,11 +264,13 @@ def convertOCIOtoCLF(configPath,
     for destColorSpaceName in destColorSpaceNames:
         # Get the OCIO transforms
         destColorSpace = config.getColorSpace(destColorSpaceName)
-        destTransform = destColorSpace.getTransform( OCIO.Constants.COLORSPACE_DIR_FROM_REFERENCE )
+        destTransform, inverse = getColorSpaceTransform( destColorSpace,
+            OCIO.Constants.COLORSPACE_DIR_FROM_REFERENCE, OCIO.Constants.COLORSPACE_DIR_TO_REFERENCE )
 
         # Convert to CLF ProcessNodes
         pns = convertTransformsToProcessNodes( destTransform, lutSearchPath=configLUTPath, 
-            inversesUseIndexMaps=inversesUseIndexMaps, inversesUseHalfDomain=inversesUseHalfDomain )
+            inversesUseIndexMaps=inversesUseIndexMaps, inversesUseHalfDomain=inversesUseHalfDomain,
+            inverse=inverse )
 
         # Rename and add a description to each ProcessNode
         specificDescription = "Convert reference to %s" % destColorSpaceName
-- 
2.43.0


From 9016d0ae33f85129a70d6be00d920fff350951aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 57/60] fix: setting the array of a LUT or Matrix again
 replaces it

The replaced array stayed among the elements, so both were written.
---
 python/aces/clf/LUT1D.py  | 2 ++
 python/aces/clf/LUT3D.py  | 2 ++
 python/aces/clf/Matrix.py | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 3e12624..7d25f4a 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -98,6 +98,8 @@ class LUT1D(ProcessNode):
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
         rawHalfs = not (self.getAttribute('rawHalfs') in [None, False])
 
+        if self._array in self._elements:
+            self._elements.remove(self._array)
         self._array = Array(dimensions, 
             values, 
             rawHalfs=rawHalfs, 
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 73ef35b..5ccc1cb 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -91,6 +91,8 @@ class LUT3D(ProcessNode):
 
         integers = bitDepthIsInteger(self.getAttribute('outBitDepth'))
 
+        if self._array in self._elements:
+            self._elements.remove(self._array)
         self._array = Array(dimensions, 
             values, 
             integers,
diff --git a/python/aces/clf/Matrix.py b/python/aces/clf/Matrix.py
index 9fe54d2..c728df8 100644
--- a/python/aces/clf/Matrix.py
+++ b/python/aces/clf/Matrix.py
@@ -63,6 +63,7 @@ class Matrix(ProcessNode):
     def __init__(self, inBitDepth=bitDepths["FLOAT16"], outBitDepth=bitDepths["FLOAT16"], id="", name=""):
         "%s - Initialize the standard class variables" % 'Matrix'
         ProcessNode.__init__(self, 'Matrix', inBitDepth, outBitDepth, id, name)
+        self._array = None
     # __init__
 
     def setMatrix(self, dimensions, values, floatEncoding='string'):
@@ -71,6 +72,8 @@ class Matrix(ProcessNode):
             values, 
             integers,
             floatEncoding=floatEncoding)
+        if self._array in self._elements:
+            self._elements.remove(self._array)
         self._array = values
         self.addElement( values )
     # setMatrix
-- 
2.43.0


From 0744341c9f8a4f5007e7e3f165c3d1f71e3ac647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 58/60] fix: setting the index maps of a LUT again replaces
 them

---
 python/aces/clf/LUT1D.py | 3 +++
 python/aces/clf/LUT3D.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/python/aces/clf/LUT1D.py b/python/aces/clf/LUT1D.py
index 7d25f4a..c8a1932 100644
--- a/python/aces/clf/LUT1D.py
+++ b/python/aces/clf/LUT1D.py
@@ -77,6 +77,9 @@ class LUT1D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        self._elements = [element for element in self._elements if not element in self._indexMaps]
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
diff --git a/python/aces/clf/LUT3D.py b/python/aces/clf/LUT3D.py
index 5ccc1cb..aeabac3 100644
--- a/python/aces/clf/LUT3D.py
+++ b/python/aces/clf/LUT3D.py
@@ -71,6 +71,9 @@ class LUT3D(ProcessNode):
     # __init__
 
     def setIndexMaps(self, valuesR, valuesG = None, valuesB = None):
+        self._elements = [element for element in self._elements if not element in self._indexMaps]
+        self._indexMaps = []
+
         indexMapR = IndexMap(len(valuesR[0]), valuesR)
         self._indexMaps.append( indexMapR ) 
         self.addElement( indexMapR )
-- 
2.43.0


From 6fba75dfc888d7836d155c5b8cd09d162dacce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 59/60] fix: the printed contrast of ExposureContrast is the
 contrast

---
 python/aces/clf/ExtensionExposureContrast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/aces/clf/ExtensionExposureContrast.py b/python/aces/clf/ExtensionExposureContrast.py
index 0e4fe16..837de17 100644
--- a/python/aces/clf/ExtensionExposureContrast.py
+++ b/python/aces/clf/ExtensionExposureContrast.py
@@ -183,7 +183,7 @@ class ExposureContrast(ProcessNode):
         print( "\tPivot     : %s" % param[2] )
         '''
 
-        values = {"exposure":param[0], "contrast":param[0], "pivot":param[2]}
+        values = {"exposure":param[0], "contrast":param[1], "pivot":param[2]}
 
         for key, value in values.iteritems():
             print( "%20s : %15s : %15s" % ("Value", key, value) )
-- 
2.43.0


From 07ec57c77de03c217f0f06c3d3c35a13b5bcfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:05 +0000
Subject: [PATCH 60/60] fix: CSP reading skips blank lines between entries

---
 python/aces/lutFormats/LutCSP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/aces/lutFormats/LutCSP.py b/python/aces/lutFormats/LutCSP.py
index 969a950..d0d5fff 100644
--- a/python/aces/lutFormats/LutCSP.py
+++ b/python/aces/lutFormats/LutCSP.py
@@ -373,7 +373,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
                 # 1D LUT data
                 elif format == "1D":
@@ -395,7 +395,7 @@ class LutFormatCSP(LutFormat.LutFormat):
 
                             samples[clfIndex:clfIndex+3] = cspSamples
 
-                        cspIndex += 1
+                            cspIndex += 1
 
         #
         # Create ProcessNodes
-- 
2.43.0

