From edd7d6bffeea672bd1b72e0c05572bfd5e2b59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 01/80] fix: inserting into a YAML sequence shifts the items
 behind the position

SequenceImp::Insert and PushFront never advanced their iterator (an endless
loop), and appending with Insert tried to reuse the last index, so the new
node was neither linked nor freed.
---
 apps/multiphysics/src/input/Yaml.cpp          | 33 ++++-------------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 35 ++++---------------
 2 files changed, 12 insertions(+), 56 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 76e86d1..b40bfbf 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -298,32 +298,17 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* Insert(const size_t index)
     {
-        if (m_Sequence.size() == 0) {
-            Node* pNode = new Node;
-            m_Sequence.insert({ 0, pNode });
-            return pNode;
-        }
-
         if (index >= m_Sequence.size()) {
-            auto it = m_Sequence.end();
-            --it;
-            Node* pNode = new Node;
-            m_Sequence.insert({ it->first, pNode });
-            return pNode;
+            return PushBack();
         }
 
-        auto it = m_Sequence.cbegin();
-        while (it != m_Sequence.cend())
-        {
-            m_Sequence[it->first + 1] = it->second;
-
-            if (it->first == index) {
-                break;
-            }
+        // Move every item at or behind the index one position back.
+        for (size_t i = m_Sequence.size(); i > index; i--) {
+            m_Sequence[i] = m_Sequence[i - 1];
         }
 
         Node* pNode = new Node;
-        m_Sequence.insert({ index, pNode });
+        m_Sequence[index] = pNode;
         return pNode;
     }
 
@@ -345,13 +330,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* PushFront()
     {
-        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
-            m_Sequence[it->first + 1] = it->second;
-        }
-
-        Node* pNode = new Node;
-        m_Sequence.insert({ 0, pNode });
-        return pNode;
+        return Insert(0);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 70adec6..6909fc3 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -182,48 +182,25 @@ namespace Yaml
 
         virtual Node * Insert(const size_t index)
         {
-            if(m_Sequence.size() == 0)
-            {
-                Node * pNode = new Node;
-                m_Sequence.insert({0, pNode});
-                return pNode;
-            }
-
             if(index >= m_Sequence.size())
             {
-                auto it = m_Sequence.end();
-                --it;
-                Node * pNode = new Node;
-                m_Sequence.insert({it->first, pNode});
-                return pNode;
+                return PushBack();
             }
 
-            auto it = m_Sequence.cbegin();
-            while(it != m_Sequence.cend())
+            // Move every item at or behind the index one position back.
+            for(size_t i = m_Sequence.size(); i > index; i--)
             {
-                m_Sequence[it->first+1] = it->second;
-
-                if(it->first == index)
-                {
-                    break;
-                }
+                m_Sequence[i] = m_Sequence[i - 1];
             }
 
             Node * pNode = new Node;
-            m_Sequence.insert({index, pNode});
+            m_Sequence[index] = pNode;
             return pNode;
         }
 
         virtual Node * PushFront()
         {
-            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
-            {
-                m_Sequence[it->first+1] = it->second;
-            }
-
-            Node * pNode = new Node;
-            m_Sequence.insert({0, pNode});
-            return pNode;
+            return Insert(0);
         }
 
         virtual Node * PushBack()
-- 
2.43.0


From 230255eab8160822837b1012ae738540bc1f10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 02/80] fix: erasing an item of a YAML sequence keeps the
 indices contiguous

After Erase(i) the remaining items kept their old indices, so operator[] and
Size() disagreed about which items exist.
---
 apps/multiphysics/src/input/Yaml.cpp                | 7 ++++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index b40bfbf..e527d43 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -386,7 +386,12 @@ public:
             return;
         }
         delete it->second;
-        m_Sequence.erase(index);
+
+        // Close the gap, so that the indices stay contiguous.
+        for (size_t i = index; i + 1 < m_Sequence.size(); i++) {
+            m_Sequence[i] = m_Sequence[i + 1];
+        }
+        m_Sequence.erase(m_Sequence.size() - 1);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 6909fc3..1d2fbc5 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -226,7 +226,13 @@ namespace Yaml
                 return;
             }
             delete it->second;
-            m_Sequence.erase(index);
+
+            // Close the gap, so that the indices stay contiguous.
+            for(size_t i = index; i + 1 < m_Sequence.size(); i++)
+            {
+                m_Sequence[i] = m_Sequence[i + 1];
+            }
+            m_Sequence.erase(m_Sequence.size() - 1);
         }
 
         virtual void Erase(const std::string & key)
-- 
2.43.0


From 465e467487dde708a9c0b8cd840cac75539d5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 03/80] fix: assigning a YAML node to itself or to its own
 subtree keeps the data

Node::operator= cleared the target before copying, so node = node lost
everything and node = node["child"] read freed memory.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e527d43..f706f80 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2374,8 +2374,10 @@ void Node::Erase(const std::string& key)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const Node& node)
 {
-    NODE_IMP->Clear();
-    CopyNode(node, *this);
+    // Copy before anything is released: the source may be this node, its child or its parent.
+    Node copy;
+    CopyNode(node, copy);
+    std::swap(m_pImp, copy.m_pImp);
     return *this;
 }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 1d2fbc5..3a2fc47 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1056,8 +1056,10 @@ namespace Yaml
 
     Node & Node::operator = (const Node & node)
     {
-        NODE_IMP->Clear();
-        CopyNode(node, *this);
+        // Copy before anything is released: the source may be this node, its child or its parent.
+        Node copy;
+        CopyNode(node, copy);
+        std::swap(m_pImp, copy.m_pImp);
         return *this;
     }
 
-- 
2.43.0


From 57d1529c3f50c4efe851934a9b08ff1e2c0cc31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 04/80] fix: copying a YAML node keeps empty sequences and
 empty maps

CopyNode turned an empty container into a none node.
---
 apps/multiphysics/src/input/Yaml.cpp                | 5 +++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index f706f80..6c75262 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4222,6 +4222,9 @@ void CopyNode(const Node& from, Node& to)
 
     switch (type) {
     case Node::SequenceType:
+        // The empty container is a container too.
+        to.PushBack();
+        to.Erase(0);
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to.PushBack();
@@ -4229,6 +4232,8 @@ void CopyNode(const Node& from, Node& to)
         }
         break;
     case Node::MapType:
+        to[""];
+        to.Erase("");
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to[(*it).first];
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 3a2fc47..fc7ba94 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2695,6 +2695,9 @@ namespace Yaml
         switch(type)
         {
         case Node::SequenceType:
+            // The empty container is a container too.
+            to.PushBack();
+            to.Erase(0);
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
@@ -2703,6 +2706,8 @@ namespace Yaml
             }
             break;
         case Node::MapType:
+            to[""];
+            to.Erase("");
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
-- 
2.43.0


From cd2e3cbfbed11c56c1ceb35bb71f67942f9b476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 05/80] fix: every '#' and ':' inside a quoted YAML string is
 literal, not only the first

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 6c75262..f8234e0 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4090,7 +4090,7 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
             return tokenPos;
         }
         preQuoteCount++;
-        if (tokenPos <= currentQuote.second) {
+        while (tokenPos <= currentQuote.second) {
             // Find next token
             if (tokenPos + 1 == input.size()) {
                 return std::string::npos;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index fc7ba94..6078f81 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2599,7 +2599,7 @@ namespace Yaml
                 return tokenPos;
             }
             preQuoteCount++;
-            if(tokenPos <= currentQuote.second)
+            while(tokenPos <= currentQuote.second)
             {
                 // Find next token
                 if(tokenPos + 1 == input.size())
-- 
2.43.0


From cfd1bd7af9a386227f546e50bc021c52200249fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 06/80] fix: YAML document markers are recognized in files with
 CRLF line ends

---
 apps/multiphysics/src/input/Yaml.cpp             | 12 ++++++------
 .../Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index f8234e0..99551e6 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2820,6 +2820,12 @@ private:
                 line.resize(commentPos);
             }
 
+            // Remove trailing return.
+            if (line.size()) {
+                if (line[line.size() - 1] == '\r') {
+                    line.resize(line.size() - 1);
+                }
+            }
             // Start of document.
             if (documentStartFound == false && line == "---") {
                 // Erase all lines before this line.
@@ -2837,12 +2843,6 @@ private:
                 break;
             }
 
-            // Remove trailing return.
-            if (line.size()) {
-                if (line[line.size() - 1] == '\r') {
-                    line.resize(line.size() - 1);
-                }
-            }
 
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 6078f81..2bcdf3d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1410,6 +1410,14 @@ namespace Yaml
                     line.resize(commentPos);
                 }
 
+                // Remove trailing return.
+                if (line.size())
+                {
+                    if (line[line.size() - 1] == '\r')
+                    {
+                        line.resize(line.size() - 1);
+                    }
+                }
                 // Start of document.
                 if (documentStartFound == false && line == "---")
                 {
@@ -1430,14 +1438,6 @@ namespace Yaml
                     break;
                 }
 
-                // Remove trailing return.
-                if (line.size())
-                {
-                    if (line[line.size() - 1] == '\r')
-                    {
-                        line.resize(line.size() - 1);
-                    }
-                }
 
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
-- 
2.43.0


From 963c6ae9808b933688d06f43159ce0df9fa203cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 07/80] fix: YAML text may contain '~'

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 99551e6..e96caa7 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2846,7 +2846,7 @@ private:
 
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
-                if (line[i] != '\t' && (line[i] < 32 || line[i] > 125)) {
+                if (line[i] != '\t' && (line[i] < 32 || line[i] > 126)) {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                 }
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 2bcdf3d..ddd8f90 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1442,7 +1442,7 @@ namespace Yaml
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
                 {
-                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 125))
+                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 126))
                     {
                         throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                     }
-- 
2.43.0


From 323a236ee87c2ad9a5e6a7455745226f4d8b422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 08/80] fix: serialized YAML scalars with apostrophes or blanks
 at an end are quoted

---
 apps/multiphysics/src/input/Yaml.cpp                | 3 ++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e96caa7..3b7d51d 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4266,7 +4266,8 @@ void CopyNode(const Node& from, Node& to)
 /////////////////////////////////////////////////////////////////////////////
 bool ShouldBeCited(const std::string& key)
 {
-    return key.find_first_of("\":{}[],&*#?|-<>=!%@") != std::string::npos;
+    return key.find_first_of("\"':{}[],&*#?|-<>=!%@") != std::string::npos ||
+           (key.size() && (key.front() == ' ' || key.back() == ' '));
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index ddd8f90..66b0378 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2725,7 +2725,8 @@ namespace Yaml
 
     bool ShouldBeCited(const std::string & key)
     {
-        return key.find_first_of("\":{}[],&*#?|-<>=!%@") != std::string::npos;
+        return key.find_first_of("\"':{}[],&*#?|-<>=!%@") != std::string::npos ||
+               (key.size() && (key.front() == ' ' || key.back() == ' '));
     }
 
     void AddEscapeTokens(std::string & input, const std::string & tokens)
-- 
2.43.0


From 453920e1098a229026aac24d13469fab1e2353be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 09/80] fix: an empty quoted YAML scalar is accepted

---
 apps/multiphysics/src/input/Yaml.cpp                | 1 -
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 3b7d51d..74f3f17 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4158,7 +4158,6 @@ bool ValidateQuote(const std::string& input)
             return false;
         }
         token     = input[0];
-        searchPos = 1;
     }
 
     while (searchPos != std::string::npos && searchPos < input.size() - 1)
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 66b0378..27fcae0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2641,7 +2641,6 @@ namespace Yaml
                 return false;
             }
             token = input[0];
-            searchPos = 1;
         }
 
         while(searchPos != std::string::npos && searchPos < input.size() - 1)
-- 
2.43.0


From 4eebe076a7f903a4b782140b639a5686b1649347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 10/80] fix: empty YAML scalars and sequences are written so
 that they read back

---
 apps/multiphysics/src/input/Yaml.cpp                | 11 ++++++++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 74f3f17..135f441 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3746,6 +3746,12 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
     switch (node.Type()) {
     case Node::SequenceType:
     {
+        // Empty sequence
+        if (node.Size() == 0) {
+            stream << std::string(level, ' ') << "[]\n";
+            break;
+        }
+
         for (auto it = node.Begin(); it != node.End(); it++) {
             const Node& value = (*it).second;
             if (value.IsNone()) {
@@ -3803,7 +3809,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
 
         // Empty scalar
         if (value.size() == 0) {
-            stream << "\n";
+            if (useLevel) {
+                stream << std::string(level, ' ');
+            }
+            stream << "\"\"\n";
             break;
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 27fcae0..1bd933f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2332,6 +2332,13 @@ namespace Yaml
         {
             case Node::SequenceType:
             {
+                // Empty sequence
+                if(node.Size() == 0)
+                {
+                    stream << std::string(level, ' ') << "[]\n";
+                    break;
+                }
+
                 for(auto it = node.Begin(); it != node.End(); it++)
                 {
                     const Node & value = (*it).second;
@@ -2402,7 +2409,11 @@ namespace Yaml
                 // Empty scalar
                 if(value.size() == 0)
                 {
-                    stream << "\n";
+                    if(useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
+                    stream << "\"\"\n";
                     break;
                 }
 
-- 
2.43.0


From 572da0571844ad1bfbdc100c5d293036db43b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 11/80] fix: bracket lists may be empty and have blanks around
 their items

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3f0cd3f..e2001d7 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -81,10 +81,13 @@ namespace Yaml {
                 return !std::isspace(ch) && ch != ']';
             }).base(), s.end());
             std::vector<std::string> result;
+            if (s.empty()) return result;
             std::stringstream ss(s);
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
+                word.erase(word.begin(), std::find_if(word.begin(), word.end(), [](unsigned char ch) { return !std::isspace(ch); }));
+                word.erase(std::find_if(word.rbegin(), word.rend(), [](unsigned char ch) { return !std::isspace(ch); }).base(), word.end());
                 result.push_back(word);
             }
             return result;
-- 
2.43.0


From 4c7154724b11ca28662656b27a62e1c2eed410a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 12/80] fix: a null pointer field is written as an absent field

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index e2001d7..6199fbb 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -236,6 +236,8 @@ namespace Yaml {
             }
 
             static void serialize(const std::shared_ptr<T>& v, Yaml::Node& node) {
+                node.Clear();
+                if (!v) return;
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
@@ -263,6 +265,8 @@ namespace Yaml {
             }
             
             static void serialize(const std::unique_ptr<T>& v, Yaml::Node& node) {
+                node.Clear();
+                if (!v) return;
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
-- 
2.43.0


From 172b707301610868eaa150e46b9f505e5a6eecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 13/80] fix: matrix inversion pivots and reports singular
 matrices

---
 apps/micromechanics/EVPFFT/src/math_functions.h     | 13 +++++++++++++
 .../LS-EVPFFT-J2/src/math_functions.h               | 13 +++++++++++++
 apps/micromechanics/LS-EVPFFT/src/math_functions.h  | 13 +++++++++++++
 .../micromechanics/LSNP-EVPFFT/src/math_functions.h | 13 +++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/math_functions.h b/apps/micromechanics/EVPFFT/src/math_functions.h
index 3678015..ca08ff9 100644
--- a/apps/micromechanics/EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/EVPFFT/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
index 3eb51cc..dd1c8bf 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/math_functions.h b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
index 3eb51cc..dd1c8bf 100644
--- a/apps/micromechanics/LS-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
index 3eb51cc..dd1c8bf 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
@@ -46,8 +46,21 @@ int invert_matrix(double *matrix)
 
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
+        // Find the pivot row
+        int pivotRow = i;
+        for (int j = i + 1; j < n; j++) {
+            if (fabs(*(matrix + j * n + i)) > fabs(*(matrix + pivotRow * n + i))) {
+                pivotRow = j;
+            }
+        }
+        if (pivotRow != i) {
+            swap_rows(matrix, i, pivotRow, n);
+            swap_rows(identity, i, pivotRow, n);
+        }
+
         if (*(matrix + i * n + i) == 0) {
             //printf("Error: Matrix is not invertible.\n");
+            error_flag = 1;
             return error_flag;
         }
 
-- 
2.43.0


From b99662dc1a9db252106a9846c79efcde893f969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 14/80] fix: reading Euler angles of a matrix with rounding
 error gives no NaN

---
 apps/micromechanics/EVPFFT/src/euler.cpp       | 3 ++-
 apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp | 3 ++-
 apps/micromechanics/LS-EVPFFT/src/euler.cpp    | 3 ++-
 apps/micromechanics/LSNP-EVPFFT/src/euler.cpp  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/euler.cpp b/apps/micromechanics/EVPFFT/src/euler.cpp
index 4752b56..d78db9e 100644
--- a/apps/micromechanics/EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/EVPFFT/src/euler.cpp
@@ -13,7 +13,8 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    // rounding may leave a(3,3) slightly outside [-1,1]
+    th = ACOS(fmin(fmax(a(3,3), (real_t)-1.0), (real_t)1.0));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
index 4752b56..d78db9e 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/euler.cpp
@@ -13,7 +13,8 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    // rounding may leave a(3,3) slightly outside [-1,1]
+    th = ACOS(fmin(fmax(a(3,3), (real_t)-1.0), (real_t)1.0));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LS-EVPFFT/src/euler.cpp b/apps/micromechanics/LS-EVPFFT/src/euler.cpp
index 4752b56..d78db9e 100644
--- a/apps/micromechanics/LS-EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/euler.cpp
@@ -13,7 +13,8 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    // rounding may leave a(3,3) slightly outside [-1,1]
+    th = ACOS(fmin(fmax(a(3,3), (real_t)-1.0), (real_t)1.0));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp b/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
index 4752b56..d78db9e 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/euler.cpp
@@ -13,7 +13,8 @@ void euler(int iopt, real_t &ph, real_t &th, real_t &tm, real_t *a_)
   //  ph,th,om ARE THE EULER ANGLES OF ca REFERRED TO sa.
 
   if (iopt == 1) {
-    th = ACOS(a(3,3));
+    // rounding may leave a(3,3) slightly outside [-1,1]
+    th = ACOS(fmin(fmax(a(3,3), (real_t)-1.0), (real_t)1.0));
     if(ABS(a(3,3)) >= 0.9999) {
       tm = 0.0;
       ph = ATAN2(a(1,2),a(1,1));
-- 
2.43.0


From e8f7d852d7fc0e72d1943a363cccc4ee59c267ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 15/80] fix: geo_equilibration_model sets the geometric model,
 not the material one

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..b387a9e 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1101,17 +1101,17 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
                 switch(equilibration_model_map[equilibration_model]){
                     case model::tiptonEquilibration:
                     {
-                        Materials.EquilibrationModels = model::tiptonEquilibration;
+                        Materials.GeoEquilibrationModels = model::tiptonEquilibration;
                         break;
                     }
                     case model::userDefinedEquilibration:
                     {
-                        Materials.EquilibrationModels = model::userDefinedEquilibration;
+                        Materials.GeoEquilibrationModels = model::userDefinedEquilibration;
                         break;
                     }
                     case model::noEquilibration:
                     {
-                        Materials.EquilibrationModels = model::noEquilibration;
+                        Materials.GeoEquilibrationModels = model::noEquilibration;
                         break;
                     }
                     default:
-- 
2.43.0


From d7ea036946f46b148e8da78aecfa0a2a89ebf6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 16/80] fix: an unknown eos_model_type is refused

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index b387a9e..e76678d 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -260,6 +260,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
-- 
2.43.0


From b871f813adf9c3ae15b0cd4042f05efddf86c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 17/80] fix: an unknown temperature_model is refused

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..d79721c 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -371,6 +371,10 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else{
+                    std::cout << "ERROR: invalid temperature boundary condition input: " << temperature_model << std::endl;
+                    throw std::runtime_error("**** Temperature BC model Not Understood ****");
+                } // end if
 
             }   
 
-- 
2.43.0


From 5cc87018e7312d553471b0a856ecb696f3ef108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 18/80] fix: an unknown region volume type is refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..c19b6fa 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1441,6 +1441,10 @@ void parse_regions(Yaml::Node& root,
                                     break;
                             } // end switch
                         } // end if on setting volume tag
+                        else{
+                            std::cout << "ERROR: invalid input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
+                        } // end if
 
                     }  // end if on volume type
                     // Get mesh file path
-- 
2.43.0


From 16bb9e476aedf4941976a53b620f002afb55b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 19/80] fix: region solver_id and material_id outside the
 deck's range are refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index c19b6fa..2083e9f 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -125,6 +125,11 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
+
+                if (solver_id < 0 || solver_id >= num_solvers){
+                    std::cout << "ERROR: invalid solver_id specified in the region definition. Either negative or >= num_solvers" << std::endl;
+                    throw std::runtime_error("**** Region solver_id is out of bounds ****");
+                } // end if
                 
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
@@ -140,6 +145,11 @@ void parse_regions(Yaml::Node& root,
             else if (a_word.compare("material_id") == 0) {
                 int id = root["regions"][reg_id]["region"][a_word].As<int>();
 
+                if (id < 0 || id >= root["materials"].Size()){
+                    std::cout << "ERROR: invalid material_id specified in the region definition. Either negative or >= num_materials" << std::endl;
+                    throw std::runtime_error("**** Region material_id is out of bounds ****");
+                } // end if
+
                 RUN({
                     region_fills(reg_id).material_id = id;
                 });
-- 
2.43.0


From 894c1df26889be355fa3fb760dd40b049d6bfbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 20/80] fix: options left out of the deck have defined defaults

---
 .../multiphysics/src/common/include/boundary_conditions.hpp | 2 +-
 apps/multiphysics/src/common/include/mesh_inputs.hpp        | 2 +-
 apps/multiphysics/src/common/include/output_options.hpp     | 4 ++--
 apps/multiphysics/src/common/include/region.hpp             | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/multiphysics/src/common/include/boundary_conditions.hpp b/apps/multiphysics/src/common/include/boundary_conditions.hpp
index a507808..02f9848 100644
--- a/apps/multiphysics/src/common/include/boundary_conditions.hpp
+++ b/apps/multiphysics/src/common/include/boundary_conditions.hpp
@@ -173,7 +173,7 @@ static std::map<std::string, boundary_conditions::BCFcnLocation> bc_location_map
 /////////////////////////////////////////////////////////////////////////////
 struct BoundaryConditionSetup_t
 {
-    boundary_conditions::BdyTag surface;   ///< Geometry boundary condition is applied to, e.g., sphere, plane
+    boundary_conditions::BdyTag surface = boundary_conditions::xPlane;   ///< Geometry boundary condition is applied to, e.g., sphere, plane
     double origin[3] = { 0.0, 0.0, 0.0 };  ///< origin of surface being tagged, e.g., sphere or cylinder surface
     double value     = 0.0;                ///< value = position, radius, etc. defining the surface geometric shape
     double tolerance = 1.0e-7;  ///< tolerance for tagging a boundary surface
diff --git a/apps/multiphysics/src/common/include/mesh_inputs.hpp b/apps/multiphysics/src/common/include/mesh_inputs.hpp
index e761974..b665428 100644
--- a/apps/multiphysics/src/common/include/mesh_inputs.hpp
+++ b/apps/multiphysics/src/common/include/mesh_inputs.hpp
@@ -80,7 +80,7 @@ struct mesh_input_t
     int num_dims = 3;   ///< Number of dimensions for the mesh
     mesh_input::source source = mesh_input::none;   ///< Source of mesh, file or generate
     std::string file_path     = ""; ///< Absolute path of mesh file
-    mesh_input::type type;          ///< Type of mesh to generate if
+    mesh_input::type type = mesh_input::Box;  ///< Type of mesh to generate if
 
     double origin[3]    = { 0.0, 0.0, 0.0 }; ///< Mesh origin for generating a mesh
     double length[3]    = { 0.0, 0.0, 0.0 }; ///< x,y,z length of generated mesh
diff --git a/apps/multiphysics/src/common/include/output_options.hpp b/apps/multiphysics/src/common/include/output_options.hpp
index f9240b8..552d5de 100644
--- a/apps/multiphysics/src/common/include/output_options.hpp
+++ b/apps/multiphysics/src/common/include/output_options.hpp
@@ -123,8 +123,8 @@ static std::map<std::string, material_pt_state> elem_outputs_map
 /////////////////////////////////////////////////////////////////////////////
 struct output_options_t
 {
-    output_options::format format;  ///< Format for the output files
-    output_options::timer_output_level timer_level; ///< How often to output mesh WARNING: CURRENTLY UNUSED
+    output_options::format format = output_options::viz;  ///< Format for the output files
+    output_options::timer_output_level timer_level = output_options::thorough; ///< How often to output mesh WARNING: CURRENTLY UNUSED
 
     double graphics_time_step   = 1.0;  ///< How often to write a graphics dump in time
     int graphics_iteration_step = 2000000;  ///< How often to write a graphics dump by iteration count
diff --git a/apps/multiphysics/src/common/include/region.hpp b/apps/multiphysics/src/common/include/region.hpp
index 2668a03..59ec326 100644
--- a/apps/multiphysics/src/common/include/region.hpp
+++ b/apps/multiphysics/src/common/include/region.hpp
@@ -85,13 +85,13 @@ static std::map<std::string, region::vol_tag> region_type_map
 struct RegionFill_t
 {
     // type
-    region::vol_tag volume; ///< Type of volume for this region eg. global, box, sphere, planes, etc.
+    region::vol_tag volume = region::no_volume; ///< Type of volume for this region eg. global, box, sphere, planes, etc.
 
     // solver id
-    size_t solver_id; ///< solver ID for this region
+    size_t solver_id = 0; ///< solver ID for this region
 
     // material id
-    size_t material_id; ///< Material ID for this region
+    size_t material_id = 0; ///< Material ID for this region
 
     // planes
     double x1 = 0.0; ///< First X plane for creating a box
-- 
2.43.0


From c68e9d55fabd6698858834e0f3e142bbd48c8ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 21/80] fix: vector inputs without brackets or with a wrong
 number of values are refused

---
 apps/multiphysics/src/common/include/string_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/apps/multiphysics/src/common/include/string_utils.hpp b/apps/multiphysics/src/common/include/string_utils.hpp
index ce44f1d..e828759 100644
--- a/apps/multiphysics/src/common/include/string_utils.hpp
+++ b/apps/multiphysics/src/common/include/string_utils.hpp
@@ -35,6 +35,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #define STRING_UTILITIES_H
 
 #include <string>
+#include <stdexcept>
 
 const std::string WHITESPACE = " ";
 
@@ -84,6 +85,11 @@ inline std::vector<std::string> exact_array_values(std::string s, std::string de
     std::string token;
     std::vector<std::string> res;
 
+    // the vector must be given as [ ... ]
+    if (s.size() < 2 || s.front() != '[' || s.back() != ']') {
+        throw std::runtime_error("**** Vector input must be in the form [ x, y, z ] ****");
+    }
+
     // remove first and last char in the string, which are [ and ]
     s.erase(s.begin());
     s.erase(s.end() - 1);
@@ -96,6 +102,11 @@ inline std::vector<std::string> exact_array_values(std::string s, std::string de
     }
 
     res.push_back(s.substr(pos_start));
+
+    // a vector has 2 or 3 components
+    if (res.size() < 2 || res.size() > 3) {
+        throw std::runtime_error("**** Vector input must have 2 or 3 values ****");
+    }
     return res;
 } // end of extract_array_values
 
-- 
2.43.0


From 12d8f3e45e209f3a6f238730adaff57ee62201ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 22/80] fix: the documented 'none' boundary condition models
 are accepted

---
 .../stress/no_stress_bc.hpp                   |  1 +
 .../src/input/parse_bdy_conds_inputs.cpp      | 26 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
index 9549ea9..08180c8 100644
--- a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
@@ -65,6 +65,7 @@ static void stress(const swage::Mesh& mesh,
     const ViewCArrayKokkos <double>& corner_surf_force,
     const ViewCArrayKokkos <double>& corner_surf_normal,
     const double time_value,
+    const size_t rk_stage,
     const size_t bdy_node_gid,
     const size_t bdy_set)
 {
diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index d79721c..53c7469 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -240,6 +240,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     // bc_velocity_model_map[velocity_model] returns enum value, e.g., boundary_conditions::velocity_constant
                     switch(map[velocity_model]){
 
+                        case boundary_conditions::noVelocityBC :
+                            std::cout << "Setting no velocity bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCVelocityModel = boundary_conditions::noVelocityBC ;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).velocity = &NoVelocityBC::velocity;
+                            });
+                            break;
+
                         case boundary_conditions::constantVelocityBC :
                             std::cout << "Setting constant velocity bc " << std::endl;
                             
@@ -338,6 +347,14 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     auto bc_temperature_model = map[temperature_model];
                     
                     switch(map[temperature_model]){
+                        case boundary_conditions::noTemperatureBC:
+                            std::cout << "Setting no temperature bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCTemperatureModel = boundary_conditions::noTemperatureBC;
+                            });
+                            break;
+
                         case boundary_conditions::constantTemperatureBC:
                             std::cout << "Setting constant temperature bc " << std::endl;
                             
@@ -399,6 +416,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     // bc_stress_model_map[stress_model] returns enum value, e.g., boundary_conditions::stress_constant
                     switch(map[stress_model]){
 
+                        case boundary_conditions::noStressBC :
+                            std::cout << "Setting no stress bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCStressModel = boundary_conditions::noStressBC ;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).stress = &NoStressBC::stress;
+                            });
+                            break;
+
                         case boundary_conditions::constantStressBC :
                             std::cout << "Setting stress bc " << std::endl;
                             
-- 
2.43.0


From 7009af194e46abc65ab008ef4f21284320663f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:48 +0000
Subject: [PATCH 23/80] fix: iterating a YAML node without items ends (it never
 did)

---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 135f441..c38c5a3 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1750,7 +1750,8 @@ bool Iterator::operator ==(const Iterator& it)
         break;
     }
 
-    return false;
+    // iterators of nodes without items are all at the end
+    return m_pImp == it.m_pImp;
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -1987,7 +1988,8 @@ bool ConstIterator::operator ==(const ConstIterator& it)
         break;
     }
 
-    return false;
+    // iterators of nodes without items are all at the end
+    return m_pImp == it.m_pImp;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 1bd933f..047893d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -768,7 +768,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // iterators of nodes without items are all at the end
+        return m_pImp == it.m_pImp;
     }
 
     bool Iterator::operator != (const Iterator & it)
@@ -921,7 +922,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // iterators of nodes without items are all at the end
+        return m_pImp == it.m_pImp;
     }
 
     bool ConstIterator::operator != (const ConstIterator & it)
-- 
2.43.0


From f05e80e8825d3d556098343522e893788a49d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 24/80] fix: the number of equilibration variables is zero when
 the deck gives none

---
 apps/multiphysics/src/common/include/material.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/include/material.hpp b/apps/multiphysics/src/common/include/material.hpp
index b9d6012..cff180f 100644
--- a/apps/multiphysics/src/common/include/material.hpp
+++ b/apps/multiphysics/src/common/include/material.hpp
@@ -522,12 +522,12 @@ struct Material_t
     // -- material-material equilibration --
     model::EquilibrationModels EquilibrationModels = model::noEquilibration;
     CArrayKokkos<double> equilibration_global_vars; ///< Array holding vars for equilibration models
-    size_t num_equilibration_global_vars;
+    size_t num_equilibration_global_vars = 0;
 
     // -- geometric-material equilibration --
     model::EquilibrationModels GeoEquilibrationModels = model::noEquilibration;
     CArrayKokkos<double> geo_equilibration_global_vars; ///< Array holding vars for geo equilibration models
-    size_t num_geo_equilibration_global_vars;
+    size_t num_geo_equilibration_global_vars = 0;
 
     size_t max_num_mats_per_element = 3; ///< default is to allow up to 3 materials in an element in setup
 
-- 
2.43.0


From d8f1d446e97cc1659149b9b80c48366f76a3a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 25/80] fix: allocate the extensive energy fill when specific
 energy is also filled

A deck with one region giving specific_internal_energy and another giving
internal_energy never allocated the second array, so painting it wrote to
unallocated memory.
---
 apps/multiphysics/src/common/include/state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/state.hpp b/apps/multiphysics/src/common/include/state.hpp
index e2d8e33..3ab7c63 100644
--- a/apps/multiphysics/src/common/include/state.hpp
+++ b/apps/multiphysics/src/common/include/state.hpp
@@ -123,7 +123,7 @@ struct fillGaussState_t
                     }
                     break;
                 case fill_gauss_state::internal_energy:
-                    if (sie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
+                    if (ie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
                     if (use_sie.size() == 0){ 
                         this->use_sie = DCArrayKokkos<bool>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_use_sie");
                         use_sie.set_values(false);
-- 
2.43.0


From 4fc70917c10418922e32169e7294ee71eaee391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 26/80] fix: compare the material of the fill saved in the
 element when appending a fill

The saved fills of an element are looked up through elem_fill_ids; the bin
number is not a fill id.
---
 apps/multiphysics/src/common/src/region_fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 19a27d5..42470bb 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1435,7 +1435,7 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     for (size_t a_fill=0; a_fill < num_fills_saved_in_elem(elem_gid); a_fill++){
 
         // get the mat_id in this fill
-        size_t a_mat_id = region_fills(a_fill).material_id;
+        size_t a_mat_id = region_fills(elem_fill_ids(elem_gid, a_fill)).material_id;
         if(mat_id == a_mat_id){
             // overwrite the existing material lid with new fill instructions
             fill_storage_lid = a_fill;  
-- 
2.43.0


From 96e3f4900d04856e872971fa9894de77ca72358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 27/80] fix: a fill that replaces a material already in the
 element needs no new slot

---
 apps/multiphysics/src/common/src/region_fill.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 42470bb..569a886 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1420,12 +1420,6 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // the number of materials saved to this element, initialized to 0 at start of code
     size_t fill_storage_lid = num_fills_saved_in_elem(elem_gid);
 
-    // check on exceeding 3 materials per element
-    if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
-        Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
-    } // end if check
-
-
     // material id assigned to this fill
     const size_t mat_id = region_fills(fill_id).material_id;
 
@@ -1448,6 +1442,11 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // There will now be at least 1 material so we want
     // num_fills_saved_in_elem >= 1, and it is intialized at 0 
     if (check_mat_exists == false){
+        // check on exceeding the max number of materials per element
+        if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
+            Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
+        } // end if check
+
         // we are adding a new material, so increment the number of saved
         num_fills_saved_in_elem(elem_gid) += 1;
     } // end check if material is a new one
-- 
2.43.0


From 7d9f529ae2665c167fab12f55caf537dc054c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 28/80] fix: measure radial and spherical volume fractions from
 their origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 569a886..c63ee33 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1509,7 +1509,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 2; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
@@ -1530,7 +1530,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 3; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
-- 
2.43.0


From 8b8bdff10f264e9bf017ac4a29f4d7780b248b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 29/80] fix: voxel spacing, nearest voxel and the last value of
 a voxel file

The spacing divided the distance between cell centres by the number of
cells, so the voxels shrank towards the origin; the index was truncated
from the centre of the first voxel instead of rounded; a last coordinate or
cell value on a line of its own was never read.
---
 .../src/common/src/region_fill.cpp            | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index c63ee33..bd3dea4 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1016,7 +1016,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_i - 1) {
+            while (num_saved < num_points_i) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1057,7 +1057,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_j - 1) {
+            while (num_saved < num_points_j) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1098,7 +1098,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_points_k - 1) {
+            while (num_saved < num_points_k) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1132,10 +1132,10 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
     num_elems_j = num_points_j - 1;
     num_elems_k = num_points_k - 1;
 
-    // center to center distance between first and last elem along each edge
-    double Lx = (pt_coords_x(num_points_i - 2) - pt_coords_x(0));
-    double Ly = (pt_coords_y(num_points_j - 2) - pt_coords_y(0));
-    double Lz = (pt_coords_z(num_points_k - 2) - pt_coords_z(0));
+    // length of each edge of the voxel mesh
+    double Lx = (pt_coords_x(num_points_i - 1) - pt_coords_x(0));
+    double Ly = (pt_coords_y(num_points_j - 1) - pt_coords_y(0));
+    double Lz = (pt_coords_z(num_points_k - 1) - pt_coords_z(0));
 
     // spacing between elems
     dx = Lx / ((double) num_elems_i);
@@ -1193,7 +1193,7 @@ void user_voxel_init(DCArrayKokkos<size_t>& elem_values,
         {
             size_t num_saved = 0;
 
-            while (num_saved < num_elems - 1) {
+            while (num_saved < num_elems) {
                 // get next line
                 std::getline(in, str0);
 
@@ -1342,9 +1342,9 @@ size_t fill_geometric_region(const swage::Mesh& mesh,
                 double j0_real = (mesh_coords(1) - orig_y - region_fills(f_id).origin[1]) / (voxel_dy);
                 double k0_real = (mesh_coords(2) - orig_z - region_fills(f_id).origin[2]) / (voxel_dz);
 
-                int i0 = (int)i0_real;
-                int j0 = (int)j0_real;
-                int k0 = (int)k0_real;
+                int i0 = (int)floor(i0_real + 0.5);
+                int j0 = (int)floor(j0_real + 0.5);
+                int k0 = (int)floor(k0_real + 0.5);
 
                 // look for the closest element in the voxel mesh
                 int elem_id0 = get_id_device(i0, j0, k0, voxel_num_i, voxel_num_j);
-- 
2.43.0


From a78060daba081f1d459b34c14e938a23d5ea7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 30/80] fix: paint nodal fields of two dimensional meshes from
 two coordinates

Node coordinates have as many components as the mesh has dimensions; the
third one read belonged to the next node.
---
 apps/multiphysics/src/common/src/region_fill.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index bd3dea4..5feed61 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -558,7 +558,7 @@ void fill_regions(
                 size_t node_gid = mesh.nodes_in_elem(elem_gid, node_lid);
 
                 // node coords(node_gid,dim)
-                ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), 3);
+                ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), mesh.num_dims);
 
                 // paint the velocity onto the nodes of the mesh
                 if(node_vel.size()>0){
@@ -1760,13 +1760,13 @@ void paint_scalar(const DCArrayKokkos<double>& field_scalar,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
@@ -1899,13 +1899,13 @@ void paint_vector(const DCArrayKokkos<double>& vector_field,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
-- 
2.43.0


From 05af476f4c8a63f80e4d946f3489c6a7a326f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 31/80] fix: write the last state of a run that ends at
 cycle_stop

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp             | 2 +-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 5b6295d..95132a8 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -587,7 +587,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 21e4139..2ced09c 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -434,7 +434,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f86663e..a320913 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -373,7 +373,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index f484a9a..c0e4eb2 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -183,7 +183,7 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 75ba514..1cca9ec 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -307,7 +307,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
-- 
2.43.0


From 5b714a2d93fbfb4214d5ca958a88d5f7f9c4b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 32/80] fix: a graphics iteration step of zero divides by zero

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp             | 2 +-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 95132a8..0b9d8fb 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -584,7 +584,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         time_value += dt;
 
         size_t write = 0;
-        if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
+        if (graphics_cyc_ival != 0 && (cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
         else if (cycle + 1 == cycle_stop) {
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 2ced09c..8353f61 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -431,7 +431,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
         time_value += dt;
 
         size_t write = 0;
-        if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
+        if (graphics_cyc_ival != 0 && (cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
         else if (cycle + 1 == cycle_stop) {
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index a320913..f9855f6 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -370,7 +370,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
 
 
         size_t write = 0;
-        if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
+        if (graphics_cyc_ival != 0 && (cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
         else if (cycle + 1 == cycle_stop) {
diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index c0e4eb2..16eedc0 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -180,7 +180,7 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
 
         // Manage outputs
         size_t write = 0;
-        if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
+        if (graphics_cyc_ival != 0 && (cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
         else if (cycle + 1 == cycle_stop) {
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 1cca9ec..5ff1cd7 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -304,7 +304,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         time_value += dt;
 
         size_t write = 0;
-        if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
+        if (graphics_cyc_ival != 0 && (cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
         else if (cycle + 1 == cycle_stop) {
-- 
2.43.0


From 0b87c16df0fb457ed69128a58cd1468ed1abaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 33/80] fix: keep graphics times at the interval's multiples
 after the solver's start

---
 .../src/Solvers/SGH_solver_3D/src/sgh_execute.cpp         | 7 +++++--
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp      | 7 +++++--
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp       | 8 ++++++--
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp       | 8 +++++---
 .../Solvers/level_set_solver/src/level_set_execute.cpp    | 8 +++++---
 5 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 0b9d8fb..0b3fd34 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -611,9 +611,12 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
                                    SGH3D_State::required_material_pt_state,
                                    this->solver_id);
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
 
-            dt = cached_pregraphics_dt;
+            // only an output at a graphics time moves on to the next one
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+                dt = cached_pregraphics_dt;
+            }
         } // end if
 
         // end of calculation
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 8353f61..8bb19ff 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -459,9 +459,12 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
 
-            dt = cached_pregraphics_dt;
+            // only an output at a graphics time moves on to the next one
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+                dt = cached_pregraphics_dt;
+            }
         } // end if
 
         // end of calculation
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f9855f6..50b4fa6 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -385,7 +385,6 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
 
         // ---- Write outputs ---- //
         if (write == 1) {
-            dt = cached_pregraphics_dt;
             printf("Writing outputs to file at %f \n", graphics_time);
             printf("cycle = %lu, time = %f, time step = %f \n", cycle, time_value, dt);
             mesh_writer.write_mesh(mesh,
@@ -400,7 +399,12 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+
+            // only an output at a graphics time moves on to the next one
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+                dt = cached_pregraphics_dt;
+            }
 
         } // end if
 
diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index 16eedc0..5d37aa2 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -207,9 +207,11 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
                                    TLQS3D_State::required_material_pt_state,
                                    this->solver_id);
 
-            graphics_time = time_value + graphics_dt_ival;
-
-            dt = cached_pregraphics_dt;
+            // only an output at a graphics time moves on to the next one
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+                dt = cached_pregraphics_dt;
+            }
         } // end if
 
         // end of calculation
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 5ff1cd7..8346b97 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -331,9 +331,11 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
                                    LevelSet_State::required_material_pt_state,
                                    this->solver_id);
 
-            graphics_time = time_value + graphics_dt_ival;
-
-            dt = cached_pregraphics_dt;
+            // only an output at a graphics time moves on to the next one
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+                dt = cached_pregraphics_dt;
+            }
         } // end if
 
         // end of calculation
-- 
2.43.0


From 26a93b25c6d9896eefcb3c9ff07447b03aa65646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 34/80] fix: let the step grow when a material has no level set

---
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 8346b97..4b97486 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -192,6 +192,12 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
 
                 // ADD advect front time step option, it uses nodal velocity
 
+            }
+            else {
+                // no front in this material, only growth, output times and the end limit the step
+                dt_mat = 1.1 * dt;
+                dt_mat = fmin(dt_mat, fmax(fuzz, graphics_time - time_value) + tiny);
+                dt_mat = fmin(dt_mat, time_final - time_value + tiny);
             } // end if on level set options
 
 
-- 
2.43.0


From a6c0e2cd0aca636b36862eadddcf842c0b32fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 35/80] fix: step size of fronts that move inwards

---
 .../src/Solvers/level_set_solver/src/time_integration.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
index a276584..03bc019 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
@@ -171,7 +171,7 @@ void LevelSet::get_timestep(
         const double curvature_velocity = Materials.MaterialFunctions(mat_id).curvature_velocity;
         
         double kappa = 1.0/(3.0*dist_min); // max curvature is around 3 DeltaX, curvature = 1/R
-        double front_velocity = 1.5+normal_velocity + curvature_velocity*kappa;
+        double front_velocity = 1.5 + fabs(normal_velocity) + fabs(curvature_velocity)*kappa;
         // the 1.5 is for redistancing velocity that has a value around 1.0, so using 1.5
 
         // local dt calc based on CFL
@@ -284,7 +284,7 @@ void LevelSet::get_timestep_2D(
         const double curvature_velocity = Materials.MaterialFunctions(mat_id).curvature_velocity;
 
         double kappa = 1.0/(3.0*dist_min); // max curvature is around 3 DeltaX, curvature = 1/R
-        double front_velocity = 1.5+normal_velocity + curvature_velocity*kappa;
+        double front_velocity = 1.5 + fabs(normal_velocity) + fabs(curvature_velocity)*kappa;
         // the 1.5 is for redistancing velocity that has a value around 1.0, so using 1.5
 
         // local dt calc based on CFL
-- 
2.43.0


From be77a83829b9b5885cd296aebbd10a9b49c2617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 36/80] fix: save the temperature gradient at the material
 point of its own material

---
 .../src/Solvers/SGTM_solver_3D/src/heat_flux.cpp            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index cb896b2..e779417 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -153,9 +153,9 @@ void SGTM3D::get_heat_flux(
         }
 
         // ---- Save the temperature gradient to the material point for writing out ---- //
-        MaterialPoints_temp_grad(mat_id, elem_gid, 0) = temp_grad(0);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 1) = temp_grad(1);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 2) = temp_grad(2);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 0) = temp_grad(0);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 1) = temp_grad(1);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 2) = temp_grad(2);
 
         // ---- Calculate the heat flux at the material point ---- //
         double conductivity = MaterialPoints_conductivity(mat_id, mat_point_sid); // NOTE: Consider moving this to properties and evaluate instead of save
-- 
2.43.0


From 2917245b0119d98ea69d9ff7b63071ebcf3181e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 37/80] fix: take the nodal specific heat from the materials
 around the node

---
 .../SGTM_solver_3D/include/sgtm_solver_3D.hpp |  2 ++
 .../SGTM_solver_3D/src/sgtm_execute.cpp       |  2 ++
 .../SGTM_solver_3D/src/temperature_sgtm.cpp   | 19 ++++++++++++++++++-
 .../src/common/src/region_fill.cpp            |  1 +
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 66a5bec..052e9c1 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -283,6 +283,8 @@ public:
             const DCArrayKokkos<double>& node_mass,
             const DCArrayKokkos<double>& node_q_transfer,
             const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+            const DRaggedRightArrayKokkos<double>& mat_pt_mass,
+            const MeshtoMaterialMap_t& mesh_to_material,
             const double rk_alpha,
             const double dt) const;
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 50b4fa6..7e8adde 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -327,6 +327,8 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.mass,
                 State.node.q_transfer,
                 State.MaterialPoints.specific_heat, // Note: Need to make this a node field, and calculate in the material loop
+                State.MaterialPoints.mass,
+                State.MeshtoMaterialMaps,
                 rk_alpha,
                 dt);
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
index 7a1a626..a2d59a8 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
@@ -46,6 +46,9 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 /// \param The temperature at the nodes
 /// \param The mass at the nodes
 /// \param The heat flux at the nodes
+/// \param The specific heat at the material points
+/// \param The mass at the material points
+/// \param The materials in each element
 /// \param The RK integration alpha value
 /// \param Time step size
 ///
@@ -58,6 +61,8 @@ void SGTM3D::update_temperature(
     const DCArrayKokkos<double>& node_mass,
     const DCArrayKokkos<double>& node_q_transfer,
     const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+    const DRaggedRightArrayKokkos<double>& mat_pt_mass,
+    const MeshtoMaterialMap_t& mesh_to_material,
     const double rk_alpha,
     const double dt) const
 {
@@ -77,7 +82,19 @@ void SGTM3D::update_temperature(
         double Cp = 0.0;
         for(int elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++){ // NOTE: num_corners_in_node = num_elems_in_node
             size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
-            Cp += mat_pt_specific_heat(0,elem_gid)/mesh.num_corners_in_node(node_gid);
+
+            // the specific heat of the element is the mass average over the materials in it
+            double heat_capacity = 0.0;
+            double elem_mass = 0.0;
+            for(size_t a_mat = 0; a_mat < mesh_to_material.num_mats_in_elem(elem_gid); a_mat++){
+                size_t mat_id = mesh_to_material.mats_in_elem(elem_gid, a_mat);
+                size_t mat_point_sid = mesh_to_material.mat_elems_in_elem(elem_gid, a_mat);
+                heat_capacity += mat_pt_mass(mat_id, mat_point_sid)*mat_pt_specific_heat(mat_id, mat_point_sid);
+                elem_mass     += mat_pt_mass(mat_id, mat_point_sid);
+            }
+            if(elem_mass > 0.0){
+                Cp += heat_capacity/elem_mass/mesh.num_corners_in_node(node_gid);
+            }
         }
 
         // std::cout << "Cp*mass = " << Cp * node_mass(node_gid) << std::endl;
diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 5feed61..4a9d1ad 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -848,6 +848,7 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
         } // end loop over materials in this element
     } // end serial for loop over all elements
     State.MaterialToMeshMaps.elem_in_mat_elem.update_device();
+    State.MeshtoMaterialMaps.mat_elems_in_elem.update_device();
 
 
     // copy the state to the device
-- 
2.43.0


From 9860762d10235e4ff37e880997963d7ff62ea343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 38/80] fix: keep the forces of the other materials where a
 material is eroded

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp    | 1 -
 apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
index 79391ed..e66c77f 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
@@ -210,7 +210,6 @@ void SGH3D::get_force(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { // material(mat_id).blank_mat_id)
                 for (size_t dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
index 55583c2..acbf973 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
@@ -217,7 +217,6 @@ void SGHRZ::get_force_rz(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { 
                 for (int dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
-- 
2.43.0


From 946391a7e65265a9b84100ab6a8f4831ef2e21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 39/80] fix: limit the axisymmetric dissipation by the
 magnitude of the vorticity

---
 .../src/material_models/artificial_viscosity/mars.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
index 786812d..c7b5fa2 100644
--- a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
+++ b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
@@ -712,7 +712,7 @@ namespace MARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
         
     // ---- Multidirectional Approximate Riemann solver (MARS) ----
@@ -986,7 +986,7 @@ namespace DirMARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
 
     // --- Calculate edge normals of a corner ---
-- 
2.43.0


From 1ee727472b6450eff020e89a538f453735524e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 40/80] fix: use the directional dissipation where the deck
 asks for it

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index e76678d..df8f65d 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -639,7 +639,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARS;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARS;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSDissipationModel::calc_dissipation;
                             });
                             break;
                         //
@@ -653,7 +653,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARSRZ;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARSRZ;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSRZDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSRZDissipationModel::calc_dissipation;
                             });
                             break;                        
                         default:
-- 
2.43.0


From 26e3b57f9d33303eb0ba674a417f6a9e169f8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 41/80] fix: remove the velocity along a boundary normal by
 projection

---
 .../boundary_conditions/velocity/piston_velocity_bc.hpp   | 8 +++++++-
 .../velocity/reflected_velocity_bc.hpp                    | 8 +++++++-
 .../velocity/time_varying_velocity_bc.hpp                 | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
index 54b0e39..dbfc645 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
@@ -116,10 +116,16 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // the velocity in the specified direction
+        double vel_normal = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_normal += node_vel(bdy_node_gid, dim)*(vel_bc_global_vars(bdy_set,dim)/mag);
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
             //  direction normal = vel_bc_global_vars(bdy_set,dim)/mag
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+            node_vel(bdy_node_gid, dim) -= vel_normal*(vel_bc_global_vars(bdy_set,dim)/mag);
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel * (vel_bc_global_vars(bdy_set,dim)/mag);
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
index 5657d8a..34de25b 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
@@ -75,9 +75,15 @@ static void velocity(const swage::Mesh& mesh,
         mag += vel_bc_global_vars(bdy_set,dim)*vel_bc_global_vars(bdy_set,dim);
     } // will make sure it's a unit vector
 
+    // the velocity in the specified direction
+    double vel_normal = 0.0;
+    for (size_t dim = 0; dim<mesh.num_dims; dim++){
+        vel_normal += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim);
+    }
+
     // Remove the velocity in the specified direction
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
-        node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        node_vel(bdy_node_gid, dim) -= vel_normal*vel_bc_global_vars(bdy_set,dim)/mag;
     }
 
     return;
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
index 50dd6e1..4c5467a 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
@@ -114,9 +114,15 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // the velocity in the specified direction
+        double vel_normal = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_normal += node_vel(bdy_node_gid, dim)*(vel_bc_global_vars(bdy_set,dim)/mag);
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+            node_vel(bdy_node_gid, dim) -= vel_normal*(vel_bc_global_vars(bdy_set,dim)/mag);
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel*vel_bc_global_vars(bdy_set,dim)/mag;
-- 
2.43.0


From 7af98867d1329a96638b5889498c3ade471439ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 42/80] fix: apply the temperature boundary conditions of the
 solver that runs

---
 .../src/Solvers/SGTM_solver_3D/src/boundary.cpp      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
index 86895c9..1bb74f4 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
@@ -54,7 +54,9 @@ void SGTM3D::boundary_temperature(const swage::Mesh& mesh,
                                   const double time_value) const
 {
     // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
+    for (size_t bc_lid = 0; bc_lid < BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id); bc_lid++) {
+
+        const size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
         
         // ---- Skip non temperature BCs ---- //
         if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::constantTemperatureBC) continue;
@@ -106,7 +108,9 @@ void SGTM3D::boundary_convection(const swage::Mesh& mesh,
                                  const double time_value) const
 {
     // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
+    for (size_t bc_lid = 0; bc_lid < BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id); bc_lid++) {
+
+        const size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
         
         // ---- Skip non convection BCs ---- //
         if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::convectionTemperatureBC) continue;
@@ -246,7 +250,9 @@ void SGTM3D::boundary_radiation(const swage::Mesh& mesh,
                                 const double time_value) const
 {
     // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
+    for (size_t bc_lid = 0; bc_lid < BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id); bc_lid++) {
+
+        const size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
         
         // ---- Skip non radiation BCs ---- // 
          if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::radiationTemperatureBC) continue;
-- 
2.43.0


From eb641bd6f758e2d56994afcf7311c77b0c800cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 43/80] fix: convect with the temperature and film coefficient
 of the input file

---
 .../src/Solvers/SGTM_solver_3D/src/boundary.cpp             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
index 1bb74f4..8e96e81 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
@@ -203,9 +203,13 @@ void SGTM3D::boundary_convection(const swage::Mesh& mesh,
             // Partition the total surface area to the corner patches
             double patch_area = surface_area/4.0;
 
-            // NOTE: Add parsing to the following variables
+            // the reference temperature and the film coefficient are those of the
+            // input file, where they are given
+            const size_t num_vars = BoundaryConditions.num_temperature_bc_global_vars(bdy_set);
             double ref_temp = 293.15; // room temp in Kelvin
             double h_film = 100.0;
+            if (num_vars > 0) ref_temp = BoundaryConditions.temperature_bc_global_vars(bdy_set, 0);
+            if (num_vars > 1) h_film = BoundaryConditions.temperature_bc_global_vars(bdy_set, 1);
 
             // ---- Calculate the flux through each patch ---- //
             for(int node_lid = 0; node_lid < mesh.num_nodes_in_patch; node_lid++){
-- 
2.43.0


From 6c18cfba4f57d9f0a5779db72c325337b1983b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 44/80] fix: start the moving heat source on its tool path

---
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 7e8adde..96f8a11 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -147,10 +147,15 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
     // ---- Set up sphere to act as a moving heat source ---- //
     DCArrayKokkos<double> sphere_position(3, "sphere_position");
 
-    sphere_position.host(0) = 0.0;
-    sphere_position.host(1) = 0.0;
-    sphere_position.host(2) = 0.0;
-    sphere_position.update_device();
+    RUN({
+        double x = 0.0;
+        double y = 0.0;
+        double z = 0.0;
+        path.get_position(time_value, x, y, z);
+        sphere_position(0) = x;
+        sphere_position(1) = y;
+        sphere_position(2) = z;
+    });
 
 
     FOR_ALL(node_gid, 0, mesh.num_nodes, {
-- 
2.43.0


From 5808e15a487894f438f166760a042a867c42b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 45/80] fix: add up the heat fluxes of the materials of an
 element

---
 .../SGTM_solver_3D/include/sgtm_solver_3D.hpp  |  4 ++++
 .../Solvers/SGTM_solver_3D/src/heat_flux.cpp   | 18 ++++++++++++------
 .../SGTM_solver_3D/src/sgtm_execute.cpp        |  5 +++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 052e9c1..27bb8bf 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -301,6 +301,8 @@ public:
         const DCArrayKokkos<double>& corner_q_flux,
         const corners_in_mat_t corners_in_mat_elem,
         const DRaggedRightArrayKokkos<bool>&   MaterialPoints_eroded,
+        const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+        const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
         const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
         const size_t num_mat_elems,
         const size_t mat_id,
@@ -315,6 +317,8 @@ public:
         const DCArrayKokkos<double>& GaussPoints_vol,
         const DCArrayKokkos<double>& node_coords,
         const DCArrayKokkos<double>& corner_q_flux,
+        const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+        const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
         const DCArrayKokkos<double>& sphere_position,
         const corners_in_mat_t corners_in_mat_elem,
         const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index e779417..75f7264 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -79,6 +79,8 @@ void SGTM3D::get_heat_flux(
     const DCArrayKokkos<double>& corner_q_transfer,
     const corners_in_mat_t corners_in_mat_elem,
     const DRaggedRightArrayKokkos<bool>&   MaterialPoints_eroded,
+    const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+    const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
     const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
     const size_t num_mat_elems,
     const size_t mat_id,
@@ -174,13 +176,14 @@ void SGTM3D::get_heat_flux(
             // Get the material corner lid
             size_t mat_corner_lid = corners_in_mat_elem(mat_elem_sid, corner_lid);
 
-            // Zero out flux at material corners
-            corner_q_transfer(corner_gid) = 0.0;
-
-            // Dot the flux into the corner normal
+            // Dot the flux into the corner normal, the corner flux is zeroed at the start
+            // of the stage and every material in the element adds its share to it
+            double corner_q = 0.0;
             for(int dim = 0; dim < mesh.num_dims; dim++){
-                corner_q_transfer(corner_gid) += MaterialPoints_q_flux(mat_id, mat_point_sid, dim) * (1.0*b_matrix(node_lid, dim));
+                corner_q += MaterialPoints_q_flux(mat_id, mat_point_sid, dim) * (1.0*b_matrix(node_lid, dim));
             }
+            corner_q_transfer(corner_gid) += corner_q * MaterialPoints_volfrac(mat_id, mat_point_sid)*
+                                                        MaterialPoints_geo_volfrac(mat_id, mat_point_sid);
         }
     }); // end parallel for loop over elements associated with the given material
 
@@ -223,6 +226,8 @@ void SGTM3D::moving_flux(
     const DCArrayKokkos<double>& GaussPoints_vol,
     const DCArrayKokkos<double>& node_coords,
     const DCArrayKokkos<double>& corner_q_flux,
+    const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+    const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
     const DCArrayKokkos<double>& sphere_position,
     const corners_in_mat_t corners_in_mat_elem,
     const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
@@ -286,7 +291,8 @@ void SGTM3D::moving_flux(
 
 
                 // Note: this will be 1/8th the volumetric flux times the volume
-                corner_q_flux(corner_gid) += q_dot * 0.125 * GaussPoints_vol(elem_gid);
+                corner_q_flux(corner_gid) += q_dot * 0.125 * GaussPoints_vol(elem_gid) * MaterialPoints_volfrac(mat_id, mat_elem_sid)*
+                                                                                         MaterialPoints_geo_volfrac(mat_id, mat_elem_sid);
 
 
                 // std::cout << "corner_q_flux = " << corner_q_flux(corner_gid) << std::endl;
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 96f8a11..0d927d7 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -262,6 +262,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
             FOR_ALL(node_gid, 0, mesh.num_nodes, {
                 State.node.q_transfer(node_gid) = 0.0;
             }); // end for parallel for over nodes
+            State.corner.q_transfer.set_values(0.0);
 
             // ---- Calculate the corner heat flux from conduction per material ---- //
             for(size_t mat_id = 0; mat_id < num_mats; mat_id++){
@@ -278,6 +279,8 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                     State.corner.q_transfer,
                     State.corners_in_mat_elem,
                     State.MaterialPoints.eroded,
+                    State.MaterialPoints.volfrac,
+                    State.MaterialPoints.geo_volfrac,
                     State.MaterialToMeshMaps.elem_in_mat_elem,
                     State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                     mat_id,
@@ -295,6 +298,8 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                         State.GaussPoints.vol,
                         State.node.coords,
                         State.corner.q_transfer,
+                        State.MaterialPoints.volfrac,
+                        State.MaterialPoints.geo_volfrac,
                         sphere_position,
                         State.corners_in_mat_elem,
                         State.MaterialToMeshMaps.elem_in_mat_elem,
-- 
2.43.0


From 2a3c74f0a3d345141a8a5e69462b7d62a54c7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 46/80] fix: write the third coordinate of every node to the
 node_coords field

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a6d9194..327e33c 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -4092,7 +4092,7 @@ public:
                             node_vector_fields(node_coord_id, node_gid, 2) = 0.0;
                         }
                         else{
-                            node_vector_fields(node_coord_id, node_coord_id, 2) = Node.coords(node_gid, 2);
+                            node_vector_fields(node_coord_id, node_gid, 2) = Node.coords(node_gid, 2);
                         } // end if
 
                     }); // end parallel for
-- 
2.43.0


From 7923da7b3b985288fe5cb0d269004298600e21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 47/80] fix: list the material files that were written in the
 vtm files

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 327e33c..f84fa28 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2707,7 +2707,7 @@ public:
 
 
             // note: the file path and folder was created in the elem and node outputs
-            size_t num_mat_files_written = 0;
+            std::vector<size_t> mat_ids_written;
             if(num_mat_pt_scalar_vars > 0 || num_mat_pt_tensor_vars >0){
 
                 for (int mat_id = 0; mat_id < num_mats; mat_id++) {
@@ -2797,7 +2797,7 @@ public:
                                   solver_id);
 
 
-                        num_mat_files_written++;
+                        mat_ids_written.push_back(mat_id);
 
                     } // end for mat_id
 
@@ -2838,7 +2838,7 @@ public:
                       mat_fields_name,
                       time_value,
                       graphics_id,
-                      num_mat_files_written,
+                      mat_ids_written,
                       write_mesh_state,
                       write_mat_pt_state,
                       solver_id);
@@ -4499,7 +4499,7 @@ public:
                    const  std::string& mat_part_name,
                    double time_value,
                    int graphics_id,
-                   int num_mats,
+                   const std::vector<size_t>& mat_ids,
                    bool write_mesh_state,
                    bool write_mat_pt_state,
                    const size_t solver_id)
@@ -4547,10 +4547,13 @@ public:
             // note: the block_id was incremented if an element average field output was made
             if (write_mat_pt_state){
                 fprintf(out[0], "    <Block index=\"%zu\" name=\"Mat\">\n", block_id);
-                for (size_t mat_id=0; mat_id<num_mats; mat_id++){
+                for (size_t piece_id=0; piece_id<mat_ids.size(); piece_id++){
                     
+                    // only materials that live on the mesh have a file
+                    const size_t mat_id = mat_ids[piece_id];
+
                     // output the material specific fields
-                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_id, mat_id);
+                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", piece_id, mat_id);
                     fprintf(out[0], "        <DataSet timestep=\"%d\" file=\"Fierro.solver%zu.%s%zu.%05d.vtu\" time= \"%12.5e\" />\n", 
                                                                file_id, solver_id, mat_part_name.c_str(), mat_id, file_id, graphics_times(file_id) );
                     fprintf(out[0], "      </Piece>\n");
-- 
2.43.0


From bbbb7a696dacbae4190c56666c53face83340a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 48/80] fix: keep the node order of quadrilaterals read from
 EnSight and VTK files

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index f84fa28..f830b46 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -508,7 +508,8 @@ public:
 
         int tmp_ijk_indx[8];
 
-        for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
+        // quads (2D) keep their order
+        for (int elem_gid = 0; num_dims == 3 && elem_gid < num_elem; elem_gid++) {
             for (int node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
                 tmp_ijk_indx[node_lid] = mesh.nodes_in_elem.host(elem_gid, convert_ensight_to_ijk[node_lid]);
             }
@@ -855,7 +856,8 @@ public:
 
         size_t tmp_ijk_indx[8];
 
-        for (size_t elem_gid = 0; elem_gid < num_elem; elem_gid++) {
+        // quads (2D) keep their order
+        for (size_t elem_gid = 0; num_dims == 3 && elem_gid < num_elem; elem_gid++) {
             for (size_t node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
                 tmp_ijk_indx[node_lid] = mesh.nodes_in_elem.host(elem_gid, convert_ensight_to_ijk[node_lid]);
             }
-- 
2.43.0


From 2cad489c626dec980a4eef6c3a3b2c14f8eba9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 49/80] fix: scale Abaqus meshes as the input file asks

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index f830b46..0264af7 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -368,7 +368,7 @@ public:
             read_ensight_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
         }
         else if(extension == "inp"){ // Abaqus meshfile extension
-            read_Abaqus_mesh(mesh, State, num_dims);
+            read_Abaqus_mesh(mesh, State, mesh_inps, num_dims);
         }
         else if(extension == "vtk"){ // vtk file format
             read_vtk_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
@@ -549,6 +549,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     void read_Abaqus_mesh(swage::Mesh& mesh,
                           State_t& State,
+                          mesh_input_t& mesh_inps,
                           int num_dims)
     {
 
@@ -657,9 +658,9 @@ public:
 
         // Copy nodes to mesh
         for(int node_gid = 0; node_gid < num_nodes; node_gid++){
-            State.node.coords.host(node_gid, 0) = nodes[node_gid].x;
-            State.node.coords.host(node_gid, 1) = nodes[node_gid].y;
-            State.node.coords.host(node_gid, 2) = nodes[node_gid].z;
+            State.node.coords.host(node_gid, 0) = mesh_inps.scale_x*nodes[node_gid].x;
+            State.node.coords.host(node_gid, 1) = mesh_inps.scale_y*nodes[node_gid].y;
+            State.node.coords.host(node_gid, 2) = mesh_inps.scale_z*nodes[node_gid].z;
         }
 
         // Update device nodal positions
-- 
2.43.0


From f14f540aa0683275f9daca08658c2b38eeb1cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 50/80] fix: follow the node numbers of Abaqus meshes

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 0264af7..724a34e 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -674,14 +674,20 @@ public:
         // initialize elem variables
         mesh.initialize_elems(num_elem, num_dims);
 
+        // the node numbers in the file are labels, they need not start at 1 nor be consecutive
+        std::map<int, size_t> node_gid_of_id;
+        for(size_t node_gid = 0; node_gid < num_nodes; node_gid++){
+            node_gid_of_id[nodes[node_gid].id] = node_gid;
+        }
 
         // for each cell read the list of associated nodes
         for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
             for (int node_lid = 0; node_lid < 8; node_lid++) {
-                mesh.nodes_in_elem.host(elem_gid, node_lid) = elements[elem_gid].connectivity[node_lid];
-
-                // shift to start node index space at 0
-                mesh.nodes_in_elem.host(elem_gid, node_lid) -= 1;
+                auto node_itr = node_gid_of_id.find(elements[elem_gid].connectivity[node_lid]);
+                if (node_itr == node_gid_of_id.end()) {
+                    throw std::runtime_error("**** Element in the Abaqus mesh uses a node that is not defined ****");
+                }
+                mesh.nodes_in_elem.host(elem_gid, node_lid) = node_itr->second;
             }
         }
 
-- 
2.43.0


From 1b7b062bc32ac75b1b977e8b1cc289e8c0cf0b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 51/80] fix: refuse incomplete mesh files

---
 .../src/common/include/mesh_io.hpp            | 138 +++++++++++-------
 1 file changed, 86 insertions(+), 52 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 724a34e..0113b98 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -158,6 +158,7 @@ int get_id_device(int i, int j, int k, int num_i, int num_j)
 //-------
 // word is the field name e.g., Offsets, connectivity, etc.
 // stop is the phrase to stop extracting values
+// size is the number of values that fit in values_xml, and the number of values read on return
 template <typename T>
 inline bool extract_values_xml(T *values_xml,
                         const std::string& word,
@@ -165,6 +166,7 @@ inline bool extract_values_xml(T *values_xml,
                         std::ifstream& in,
                         size_t& size)
 {
+        const size_t max_size = size;
 
         bool found = false;
 
@@ -188,6 +190,9 @@ inline bool extract_values_xml(T *values_xml,
                     // extract the individual values from the stream
                     T value;
                     while (iss >> value) {
+                        if (i >= max_size) {
+                            throw std::runtime_error("**** Too many values for " + word + " in the XML file ****");
+                        }
                         values_xml[i] = value;
                         i++;
                     } // end while
@@ -242,7 +247,7 @@ inline bool extract_num_points_and_cells_xml(int& numberOfPoints,
                 numberOfCells = std::stoi(match[2].str());
 
             } else {
-                std::cout << "Error reading the number of points and cells in the mesh!" << std::endl;
+                throw std::runtime_error("**** Error reading the number of points and cells in the mesh! ****");
             }
             
             break;
@@ -298,6 +303,24 @@ private:
         std::vector<int> connectivity; 
     };
 
+    // stop when the mesh file is not a complete mesh
+    static void check_mesh_file(bool valid, const std::string& message)
+    {
+        if (!valid) {
+            throw std::runtime_error("**** Invalid mesh file: " + message + " ****");
+        }
+    }
+
+    // every element must use nodes of the mesh
+    static void check_nodes_in_elem(const swage::Mesh& mesh)
+    {
+        for (size_t elem_gid = 0; elem_gid < mesh.num_elems; elem_gid++) {
+            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
+                check_mesh_file(mesh.nodes_in_elem.host(elem_gid, node_lid) < mesh.num_nodes, "an element uses a node that is not in the mesh");
+            }
+        }
+    }
+
 public:
 
     char* mesh_file_ = NULL;
@@ -402,22 +425,20 @@ public:
                            mesh_input_t& mesh_inps,
                            int num_dims)
     {
-        FILE* in;
-        char  ch;
-
         size_t num_nodes_in_elem = 1;
         for (int dim = 0; dim < num_dims; dim++) {
             num_nodes_in_elem *= 2;
         }
 
         // read the mesh    WARNING: assumes a .geo file
-        in = fopen(mesh_file_, "r");
+        std::unique_ptr<FILE, int (*)(FILE*)> in_file(fopen(mesh_file_, "r"), &fclose);
+        FILE* in = in_file.get();
 
         // skip 8 lines
+        int ch;
         for (int j = 1; j <= 8; j++) {
-            int i = 0;
-            while ((ch = (char)fgetc(in)) != '\n') {
-                i++;
+            while ((ch = fgetc(in)) != '\n') {
+                check_mesh_file(ch != EOF, "the header is incomplete");
             }
         }
 
@@ -425,7 +446,7 @@ public:
 
         size_t num_nodes = 0;
 
-        fscanf(in, "%lu", &num_nodes);
+        check_mesh_file(fscanf(in, "%lu", &num_nodes) == 1, "the number of nodes is missing");
         printf("Number of nodes read in %lu\n", num_nodes);
 
         
@@ -438,25 +459,25 @@ public:
         // read the initial mesh coordinates
         // x-coords
         for (int node_id = 0; node_id < mesh.num_nodes; node_id++) {
-            fscanf(in, "%le", &node.coords.host(node_id, 0));
+            check_mesh_file(fscanf(in, "%le", &node.coords.host(node_id, 0)) == 1, "node coordinates are missing");
             node.coords.host(node_id, 0)*= mesh_inps.scale_x;
         }
 
         // y-coords
         for (int node_id = 0; node_id < mesh.num_nodes; node_id++) {
-            fscanf(in, "%le", &node.coords.host(node_id, 1));
+            check_mesh_file(fscanf(in, "%le", &node.coords.host(node_id, 1)) == 1, "node coordinates are missing");
             node.coords.host(node_id, 1)*= mesh_inps.scale_y;
         }
 
         // z-coords
         for (int node_id = 0; node_id < mesh.num_nodes; node_id++) {
             if (num_dims == 3) {
-                fscanf(in, "%le", &node.coords.host(node_id, 2));
+                check_mesh_file(fscanf(in, "%le", &node.coords.host(node_id, 2)) == 1, "node coordinates are missing");
                 node.coords.host(node_id, 2)*= mesh_inps.scale_z;
             }
             else{
                 double dummy;
-                fscanf(in, "%le", &dummy);
+                check_mesh_file(fscanf(in, "%le", &dummy) == 1, "node coordinates are missing");
             }
         } // end for
 
@@ -464,20 +485,15 @@ public:
         // Update device nodal positions
         node.coords.update_device();
 
-        ch = (char)fgetc(in);
-
-        // skip 1 line
-        for (int j = 1; j <= 1; j++) {
-            int i = 0;
-            while ((ch = (char)fgetc(in)) != '\n') {
-                i++;
-            }
-        }
+        // the type of the elements
+        char elem_type[80] = "";
+        check_mesh_file(fscanf(in, "%79s", elem_type) == 1 && std::string(elem_type) == (num_dims == 3 ? "hexa8" : "quad4"),
+                        "the elements are not hexa8 (3D) or quad4 (2D)");
 
         // --- read in the elements in the mesh ---
         size_t num_elem = 0;
 
-        fscanf(in, "%lu", &num_elem);
+        check_mesh_file(fscanf(in, "%lu", &num_elem) == 1, "the number of elements is missing");
         printf("Number of elements read in %lu\n", num_elem);
 
         // initialize elem variables
@@ -488,7 +504,7 @@ public:
         // for each cell read the list of associated nodes
         for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
             for (int node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
-                fscanf(in, "%lu", &mesh.nodes_in_elem.host(elem_gid, node_lid));  // %d vs zu
+                check_mesh_file(fscanf(in, "%lu", &mesh.nodes_in_elem.host(elem_gid, node_lid)) == 1, "nodes of elements are missing");  // %d vs zu
 
                 // shift to start node index space at 0
                 mesh.nodes_in_elem.host(elem_gid, node_lid) -= 1;
@@ -526,10 +542,8 @@ public:
         mesh.initialize_corners(num_corners);
         // corner.initialize(num_corners, num_dims);
 
-        // Close mesh input file
-        fclose(in);
-
         // Build connectivity
+        check_nodes_in_elem(mesh);
         mesh.build_connectivity();
 
         return;
@@ -554,6 +568,7 @@ public:
     {
 
         std::cout<<"Reading abaqus input file for mesh"<<std::endl;
+        check_mesh_file(num_dims == 3, "Abaqus meshes must be 3D");
         std::ifstream inputFile(mesh_file_);
         if (!inputFile.is_open()) {
             std::cerr << "Failed to open the file." << std::endl;
@@ -587,7 +602,8 @@ public:
                     std::getline(iss, token, ',') && iss >> node.y &&
                     std::getline(iss, token, ',') && iss >> node.z)) {
                     std::cerr << "Failed to parse line: " << line << std::endl;
-                    continue; // Skip this line if parsing failed
+                    check_mesh_file(line.find_first_not_of(" \t\r") == std::string::npos, "cannot read a node");
+                    continue; // Skip empty lines
                 }
                 nodes.push_back(node);
             }
@@ -606,15 +622,17 @@ public:
 
                 if (!(iss >> element.id)){
                     std::cout << "Failed to parse line: " << line << std::endl;
-                    continue; // Skip this line if parsing failed
+                    check_mesh_file(line.find_first_not_of(" \t\r") == std::string::npos, "cannot read an element");
+                    continue; // Skip empty lines
                 } 
 
                 while ((std::getline(iss, token, ','))) { 
                     // Now extract the integer, ignoring any trailing whitespace
                     int val;
-                    iss >> val;
+                    if (!(iss >> val)) break;
                     element.connectivity.push_back(val);
                 }
+                check_mesh_file(element.connectivity.size() == 8, "an element does not have 8 nodes");
 
                 // Convert from abaqus to IJK mesh
                 int convert_abq_to_ijk[8];
@@ -750,11 +768,12 @@ public:
             std::string str;
             std::string delimiter = " ";
             std::getline(in, str);
+            check_mesh_file(bool(in), "failed to find POINTS");
             std::vector<std::string> v = split (str, delimiter);
             
             // looking for the following text:
             //      POINTS %d float
-            if(v[0] == "POINTS"){
+            if(v[0] == "POINTS" && v.size() > 1){
                 size_t num_nodes = std::stoi(v[1]);
                 printf("Number of nodes read in %zu\n", num_nodes);
                 mesh.initialize_nodes(num_nodes);
@@ -767,8 +786,7 @@ public:
             
             
             if (i>1000){
-                std::cerr << "ERROR: Failed to find POINTS in file" << std::endl;
-                break;
+                throw std::runtime_error("**** ERROR: Failed to find POINTS in file ****");
             } // end if
             
             i++;
@@ -783,6 +801,8 @@ public:
             std::string delimiter = " ";
             std::vector<std::string> v = split (str, delimiter);
             
+            check_mesh_file(v.size() >= 3, "node coordinates are missing");
+
             // save the nodal coordinates
             node.coords.host(node_gid, 0) = mesh_inps.scale_x*std::stod(v[0]); // double
             node.coords.host(node_gid, 1) = mesh_inps.scale_y*std::stod(v[1]); // double
@@ -807,12 +827,13 @@ public:
             std::getline(in, str);
             
             std::string delimiter = " ";
+            check_mesh_file(bool(in), "failed to find CELLS");
             std::vector<std::string> v = split (str, delimiter);
             std::cout << v[0] << std::endl; // printing
             
             // looking for the following text:
             //      CELLS num_elem size
-            if(v[0] == "CELLS"){
+            if(v[0] == "CELLS" && v.size() > 1){
                 num_elem = std::stoi(v[1]);
                 printf("Number of elements read in %zu\n", num_elem);
 
@@ -824,8 +845,7 @@ public:
             
             
             if (i>1000){
-                printf("ERROR: Failed to find CELLS \n");
-                break;
+                throw std::runtime_error("**** ERROR: Failed to find CELLS in file ****");
             } // end if
             
             i++;
@@ -841,6 +861,7 @@ public:
             std::string delimiter = " ";
             std::vector<std::string> v = split (str, delimiter);
             num_nodes_in_elem = std::stoi(v[0]);
+            check_mesh_file(num_nodes_in_elem == mesh.num_nodes_in_elem && v.size() > num_nodes_in_elem, "an element does not have 8 (3D) or 4 (2D) nodes");
             
             for (size_t node_lid=0; node_lid<num_nodes_in_elem; node_lid++){
                 mesh.nodes_in_elem.host(elem_gid, node_lid) = std::stod(v[node_lid+1]);
@@ -883,6 +904,7 @@ public:
 
 
         // Build connectivity
+        check_nodes_in_elem(mesh);
         mesh.build_connectivity();
 
 
@@ -898,22 +920,25 @@ public:
             std::string str;
             std::string delimiter = " ";
             std::getline(in, str);
+            check_mesh_file(bool(in), "failed to find CELL_TYPES");
             std::vector<std::string> v = split (str, delimiter);
             
             // looking for the following text:
             //      CELLS num_elem size
             if(v[0] == "CELL_TYPES"){
 
-                std::getline(in, str);
-                elem_type = std::stoi(str);
+                for (elem_gid=0; elem_gid<num_elem; elem_gid++) {
+                    std::getline(in, str);
+                    elem_type = std::stoi(str);
+                    check_mesh_file(elem_type == (num_dims == 3 ? 12 : 9), "the elements are not linear hexahedra (3D) or linear quadrilaterals (2D)");
+                }
                 
                 found=true;
             } // end if
             
             
             if (i>1000){
-                printf("ERROR: Failed to find elem_TYPE \n");
-                break;
+                throw std::runtime_error("**** ERROR: Failed to find CELL_TYPES in file ****");
             } // end if
             
             i++;
@@ -921,14 +946,6 @@ public:
         printf("Element type = %zu \n", elem_type);
         // elem types:
         // linear hex = 12, linear quad = 9
-        found=false;
-        
-        
-        if(num_nodes_in_elem==8 & elem_type != 12) {
-            printf("Wrong element type of %zu \n", elem_type);
-            std::cerr << "ERROR: incorrect element type in VTK file" << std::endl;
-        }
-        
         in.close();
         
     } // end of VTKread function
@@ -975,8 +992,8 @@ public:
         
 
         // --- extract the number of points and cells from the XML file ---
-        int num_nodes;
-        int num_elems;
+        int num_nodes = 0;
+        int num_elems = 0;
         found = extract_num_points_and_cells_xml(num_nodes,
                                                  num_elems,
                                                  in);
@@ -1026,6 +1043,7 @@ public:
         // ---
         //  Object ids
         // ---
+        size = num_elems;
 
         // the object id in the element
         // array dims are (num_elems)
@@ -1039,6 +1057,9 @@ public:
             std::cout << "ERROR: ObjectIDs were not found in the XML file!" << std::endl;
             mesh_inps.object_ids.host.set_values(0.0);
         }
+        else {
+            check_mesh_file(size == num_elems, "failed to read all the object ids");
+        }
         mesh_inps.object_ids.update_device();
 
         // Reset file stream to beginning to search for Points
@@ -1052,6 +1073,7 @@ public:
         // coordinates of the node
         // array dims are (num_nodes,dims)
         // must use the quotes around Points to read the point values
+        size = num_nodes*3;
         found = extract_values_xml(node_coords.host.pointer(),
                                 "\"Points\"",
                                 stop,
@@ -1092,14 +1114,17 @@ public:
 
         // fill temporary nodes in the element array
         // array dims are (num_elems,num_nodes_in_elem)
+        check_mesh_file(num_nodes_in_elem == mesh.num_nodes_in_elem, "the order of the elements is not supported");
+        size = num_elems*num_nodes_in_elem;
         found = extract_values_xml(connectivity.host.pointer(),
                                 "\"connectivity\"",
                                 stop,
                                 in,
                                 size);
         if(found==false){
-            std::cout << "ERROR: mesh connectivity was not found in the XML file!" << std::endl;
+            throw std::runtime_error("**** ERROR: mesh connectivity was not found in the XML file! ****");
         }
+        check_mesh_file(size == num_elems*num_nodes_in_elem, "failed to read the nodes of all the elements");
         connectivity.update_device();
 
         // array dims are the (num_elems) 
@@ -1108,16 +1133,24 @@ public:
         //    12 = linear ensight hex ordering
         //    72 = VTK_LAGRANGE_HEXAHEDRON
         // ....
+        size = num_elems;
         found = extract_values_xml(elem_types.host.pointer(),
                                 "\"types\"",
                                 stop,
                                 in,
                                 size);
         if(found==false){
-            std::cout << "ERROR: element types were not found in the XML file!" << std::endl;
+            throw std::runtime_error("**** ERROR: element types were not found in the XML file! ****");
         }
+        check_mesh_file(size == num_elems, "failed to read the types of all the elements");
         elem_types.update_device();
 
+        // the elements must all be of one type, with the dimensions of the mesh
+        for (int elem_gid = 0; elem_gid < num_elems; elem_gid++) {
+            check_mesh_file(elem_types.host(elem_gid) == elem_types.host(0) && (elem_types.host(elem_gid) == element_types::linear_quad) == (num_dims == 2),
+                            "the elements are not all of the same type, or do not have the dimensions of the mesh");
+        }
+
         // check that the element type is supported by Fierro
         FOR_ALL (elem_gid, 0, mesh.num_elems, {
             if(elem_types(elem_gid) == element_types::linear_quad || 
@@ -1244,6 +1277,7 @@ public:
 
 
         // Build connectivity
+        check_nodes_in_elem(mesh);
         mesh.build_connectivity();
 
 
-- 
2.43.0


From a80620505210bb7dacd7c4d057057476937aaf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 52/80] fix: read mesh files with the number of dimensions of
 the input file

---
 apps/multiphysics/src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index 8ff09fe..e2588c9 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -88,7 +88,7 @@ void Driver::initialize()
         mesh_reader.read_mesh(mesh, 
                               State,
                               SimulationParamaters.mesh_input, 
-                              num_dims);
+                              SimulationParamaters.mesh_input.num_dims);
     }
     else if (SimulationParamaters.mesh_input.source == mesh_input::generate) {
         mesh_builder.build_mesh(mesh, 
-- 
2.43.0


From ee88c0dd3e8207183ffa4228f8c8e54c0123c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 53/80] fix: point the level set gradient up the level set
 field

---
 .../src/Solvers/level_set_solver/src/solver_functions.cpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 23a4078..18f6876 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -89,7 +89,7 @@ void LevelSet::nodal_gradient(
         }
 
         if(mesh.num_dims==3){
-            // get the B matrix which are the inward corner area normals or the elem
+            // get the B matrix which are the outward corner area normals of the elem
             geometry::get_bmatrix(area_normal,
                                   elem_gid,
                                   node_coords,
@@ -108,8 +108,9 @@ void LevelSet::nodal_gradient(
             size_t corner_gid = mesh.corners_in_elem(elem_gid, corner_lid);
 
             // save the corner normal (inward pointing from the element)
+            // the -1 is for the inward surface area normal
             for (size_t dim = 0; dim < mesh.num_dims; dim++) {
-                corner_normal(corner_gid, dim) = area_normal(corner_lid, dim);
+                corner_normal(corner_gid, dim) = (-1.0) * area_normal(corner_lid, dim);
             } // end loop over dimension
 
             // save the corner volume
-- 
2.43.0


From 5c2e1214c1358854a769f217962b531f511c49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 54/80] fix: smooth the level set of a 2D element over its own
 size

---
 .../src/Solvers/level_set_solver/include/level_set_solver.hpp | 1 +
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp    | 1 +
 .../src/Solvers/level_set_solver/src/solver_functions.cpp     | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp b/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
index a4e8386..e37d418 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
@@ -196,6 +196,7 @@ public:
             const DCArrayKokkos<double>& GaussPoints_level_set_n,
             const DCArrayKokkos<double>& GaussPoints_vol,
             const DCArrayKokkos<double>& Corner_normal,
+            const DCArrayKokkos<double>& Corner_volume,
             const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
             const size_t num_mat_elems,
             const size_t mat_id,
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 4b97486..02b5863 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -285,6 +285,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
                         State.GaussPoints.level_set_n0,
                         State.GaussPoints.vol,
                         State.corner.normal,
+                        State.corner.volume,
                         State.MaterialToMeshMaps.elem_in_mat_elem,
                         State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                         mat_id,
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 18f6876..3cc3fb7 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -208,6 +208,7 @@ void LevelSet::update_level_set(
     const DCArrayKokkos<double>& GaussPoints_level_set_n0,
     const DCArrayKokkos<double>& GaussPoints_vol,
     const DCArrayKokkos<double>& corner_normal,
+    const DCArrayKokkos<double>& corner_volume,
     const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
     const size_t num_mat_elems,
     const size_t mat_id,
@@ -240,7 +241,8 @@ void LevelSet::update_level_set(
             deltaX = 2.0*cbrt(GaussPoints_vol(gauss_point)); // length scale for smoothing signum function
         }
         else {
-            deltaX = 2.0*sqrt(GaussPoints_vol(gauss_point));
+            // the volume of the Gauss point is that of the axisymmetric element, the corner volumes add up to the area of the quad
+            deltaX = 2.0*sqrt((double)mesh.num_nodes_in_elem*corner_volume(mesh.corners_in_elem(elem_gid, 0)));
         }
         const double signum = GaussPoints_level_set(gauss_point)/( sqrt(GaussPoints_level_set(gauss_point)*GaussPoints_level_set(gauss_point) + deltaX*deltaX));
 
-- 
2.43.0


From ff7bce64d83cf3b7719322d9dfc6cc98118e65aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 55/80] fix: relax geometric volume fractions with the
 parameters given for them

---
 .../equilibration/src/tipton_equilibration.cpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp b/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp
index 8ac7c9b..e5cc659 100644
--- a/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp
+++ b/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp
@@ -262,8 +262,8 @@ namespace TiptonEquilibrationModel {
                 dt,
                 rk_alpha,
                 fuzz,
-                Materials.equilibration_global_vars,
-                Materials.num_equilibration_global_vars,
+                Materials.geo_equilibration_global_vars,
+                Materials.num_geo_equilibration_global_vars,
                 State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                 mat_id);
 
-- 
2.43.0


From 7577b01c629636e9263f254f683d8f17fc258974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 56/80] fix: keep eroded materials void when volume fractions
 are relaxed

---
 .../equilibration/include/tipton_equilibration.hpp        | 1 +
 .../equilibration/src/tipton_equilibration.cpp            | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/apps/multiphysics/src/material_models/equilibration/include/tipton_equilibration.hpp b/apps/multiphysics/src/material_models/equilibration/include/tipton_equilibration.hpp
index bd9c0c8..d548116 100644
--- a/apps/multiphysics/src/material_models/equilibration/include/tipton_equilibration.hpp
+++ b/apps/multiphysics/src/material_models/equilibration/include/tipton_equilibration.hpp
@@ -137,6 +137,7 @@ namespace TiptonEquilibrationModel {
             const DRaggedRightArrayKokkos<double>& MaterialPoints_stress,
             const DRaggedRightArrayKokkos<double>& MaterialPoints_shear_modulii,
             const DRaggedRightArrayKokkos<double>& MaterialPoints_eos_state_vars,
+            const DRaggedRightArrayKokkos<bool>& MaterialPoints_eroded,
             const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
             const points_in_mat_t& points_in_mat_elem,
             const double dt,
diff --git a/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp b/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp
index e5cc659..bf7c911 100644
--- a/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp
+++ b/apps/multiphysics/src/material_models/equilibration/src/tipton_equilibration.cpp
@@ -172,6 +172,7 @@ namespace TiptonEquilibrationModel {
                 State.MaterialPoints.stress,
                 State.MaterialPoints.shear_modulii,
                 State.MaterialPoints.eos_state_vars,
+                State.MaterialPoints.eroded,
                 State.MaterialToMeshMaps.elem_in_mat_elem,
                 State.points_in_mat_elem,
                 dt,
@@ -295,6 +296,7 @@ namespace TiptonEquilibrationModel {
                 State.MaterialPoints.stress,
                 State.MaterialPoints.shear_modulii,
                 State.MaterialPoints.eos_state_vars,
+                State.MaterialPoints.eroded,
                 State.MaterialToMeshMaps.elem_in_mat_elem,
                 State.points_in_mat_elem,
                 dt,
@@ -511,6 +513,7 @@ namespace TiptonEquilibrationModel {
         const DRaggedRightArrayKokkos<double>& MaterialPoints_stress,
         const DRaggedRightArrayKokkos<double>& MaterialPoints_shear_modulii,
         const DRaggedRightArrayKokkos<double>& MaterialPoints_eos_state_vars,
+        const DRaggedRightArrayKokkos<bool>& MaterialPoints_eroded,
         const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
         const points_in_mat_t& points_in_mat_elem,
         const double dt,
@@ -556,6 +559,11 @@ namespace TiptonEquilibrationModel {
                 MaterialPoints_sie(mat_id, mat_point_storage_lid) -= GaussPoint_pres(gauss_gid)*vol_change/(MaterialPoints_mass(mat_id, mat_point_storage_lid)+1.0e-20);
             
 
+                // an eroded material stays a void, see update_state
+                if (MaterialPoints_eroded(mat_id, mat_point_storage_lid)) {
+                    continue;
+                }
+
                 // --- Density ---
                 MaterialPoints_den(mat_id, mat_point_storage_lid) = MaterialPoints_mass(mat_id, mat_point_storage_lid) / 
                         (GaussPoint_vol(gauss_gid)*MaterialPoints_volfrac_inout(mat_id, mat_point_storage_lid)*MaterialPoints_volfrac_in(mat_id, mat_point_storage_lid) + 1.0e-20);
-- 
2.43.0


From e246457972264ca7e74924006c83504e12b9bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 57/80] fix: pair a node only with faces that oppose its body

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp
index 09fd926..4a7f341 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/contact.cpp
@@ -2088,7 +2088,7 @@ void penetration_sweep(double x_min, double y_min, double z_min, double bounding
                                     P[2] = pz + c*surf_normal[2];
                                     double ptoPmagloc = sqrt((px-P[0])*(px-P[0])+(py-P[1])*(py-P[1])+(pz-P[2])*(pz-P[2]));
                                     // pairing step 4) find surf with max value of dot product from (3)
-                                    if (dot_prod_loc > -pow(10,-2) && ptoPmagloc < ptoPmag) {
+                                    if (dot_prod_loc > pow(10,-2) && ptoPmagloc < ptoPmag) {
                                         ptoPmag = ptoPmagloc;
                                         surf_lid = j+1;
                                     }
-- 
2.43.0


From 3f355e6a49a7406c824fc19b193b51c338a3c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 58/80] fix: set the initial velocity and temperature of nodes
 in a loop over nodes

Elements with different fills share nodes; painting nodes from a parallel loop
over elements let two iterations write the same node, so the velocity of nodes
between fills depended on the schedule (and could mix components of both).
---
 .../src/common/src/region_fill.cpp            | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 4a9d1ad..b73d951 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -548,17 +548,30 @@ void fill_regions(
 
             } // end loop over gauss points
 
+        } // loop over the fills in this elem
+    }); // end FOR_ALL elem loop
+    Kokkos::fence();
 
-            // --- painting nodal variables ---  
 
-            // loop over the nodes of this element and apply velocity
-            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
-                
-                // get the mesh node index
-                size_t node_gid = mesh.nodes_in_elem(elem_gid, node_lid);
+    //---------
+    // parallel loop over nodes in the mesh and set the nodal state
+    //---------
+    // A node is shared by elements that can have different fills, so the node visits its
+    // elements (rather than each element painting its nodes), the last fill visited is kept
+    FOR_ALL(node_gid, 0, mesh.num_nodes, {
 
-                // node coords(node_gid,dim)
-                ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), mesh.num_dims);
+        // node coords(node_gid,dim)
+        ViewCArrayKokkos <double> a_node_coords(&node_coords(node_gid,0), mesh.num_dims);
+
+        // loop over the elements connected to this node
+        for (size_t elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++) {
+
+            size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
+
+            for(size_t bin=0; bin<elem_num_mats_saved_in_elem(elem_gid); bin++){
+
+                // get the region fill id
+                size_t fill_id = elem_fill_ids(elem_gid, bin);
 
                 // paint the velocity onto the nodes of the mesh
                 if(node_vel.size()>0){
@@ -586,9 +599,8 @@ void fill_regions(
                                  region_fills(fill_id).temperature_field);
                 }
 
-            } // end loop over the nodes in elem
-
-        } // loop over the fills in this elem
+            } // loop over the fills in this elem
+        } // loop over the elements of this node
     }); // end FOR_ALL node loop
     Kokkos::fence();
 
-- 
2.43.0


From bcc2ba1985a746fe85f08e1e8d8b77691e366835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 59/80] fix: bring the velocity at the start of the step to the
 host before the EnSight output

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 0113b98..c177102 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2975,6 +2975,7 @@ public:
         // nodal values
         State.node.coords.update_host();
         State.node.vel.update_host();
+        State.node.vel_n0.update_host();
         State.node.mass.update_host();
 
         Kokkos::fence();
-- 
2.43.0


From 799d6e9e8571142e8afb16769fea8ad20a5bca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 60/80] fix: copy the initial level set to the device

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index b73d951..c356df9 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -898,6 +898,10 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
         State.MaterialPoints.specific_heat.update_device();
     }
 
+    if (State.GaussPoints.level_set.size()>0){
+        State.GaussPoints.level_set.update_device();
+    }
+
     // -----
     // add other state here
 
-- 
2.43.0


From dc2071d213a0560ebe666969cccfb6afd3d0bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 61/80] fix: place cylinder meshes at their origin, not at
 twice their origin

---
 legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp b/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp
index 5f40ee3..afd7786 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp
+++ b/legacy/Fierro_V0/src/Mesh-Builder/src/MeshBuilder.cpp
@@ -211,12 +211,12 @@ Mesh build_rectilinear(const Input_Rectilinear& input) {
  * The coordinates of the points before this function are <r, theta, z>.
  * The coordinates of the points after this function are <x, y, z>.
 */
-void cylinder_transform(Mesh& mesh, const Input_Cylinder& input) {
+void cylinder_transform(Mesh& mesh) {
     for (size_t i = 0; i < mesh.points.dims(0); i++) {
         double r_i = mesh.points(i, 0);
         double theta = mesh.points(i, 1);
-        mesh.points(i, 0) = input.origin[0] + r_i * cos(theta);
-        mesh.points(i, 1) = input.origin[1] + r_i * sin(theta);
+        mesh.points(i, 0) = r_i * cos(theta);
+        mesh.points(i, 1) = r_i * sin(theta);
     }
 }
 
@@ -240,7 +240,7 @@ Mesh MeshBuilder::build_mesh(std::shared_ptr<MeshBuilderInput> input) {
         break;
     case MeshType::Cylinder:
         mesh = build_rectilinear(*std::dynamic_pointer_cast<Input_Rectilinear>(input));
-        cylinder_transform(mesh, *std::dynamic_pointer_cast<Input_Cylinder>(input));
+        cylinder_transform(mesh);
         break;
     default:
         throw std::runtime_error("Unsupported mesh shape.");
-- 
2.43.0


From bb7fdaa7e52338786f374fd0daf5a6d86adf142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 62/80] fix: check the angular length of cylinder meshes in the
 unit it is stored in

---
 legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
index d907cb6..b7df638 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
@@ -149,7 +149,8 @@ struct Input_Cylinder
     }
 
     void validate() {
-        if (length[1] < 0 || length[1] > 360)
+        // derive() has converted the angle to radians.
+        if (length[1] < 0 || length[1] > 2. * M_PI * (1. + 1e-10))
             throw Yaml::ConfigurationException("The angular lenght of the cylinder must be in [0, 360]");
     }
 };
-- 
2.43.0


From 2b8c5587aba2e1bf2e92a50d7c5ea5a7b194ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 63/80] fix: do not read past the lower bound when too many
 lengths are given

---
 legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
index b7df638..0d61969 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/MeshBuilderInput.h
@@ -81,7 +81,7 @@ struct Input_Rectilinear
     void derive() {
         num_dims = origin.size();
 
-        lower_bound = {0, 0, 0};
+        lower_bound.assign(std::max(length.size(), (size_t)3), 0.); // sizes are validated later
         upper_bound = length;
         derive_delta();
         
-- 
2.43.0


From f9361621f4923b31b1f3e530a66be92a50c0eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 64/80] fix: build the Lagrange numbering of hexahedra anew for
 every mesh

---
 legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h b/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
index 313aea2..9410215 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
@@ -99,7 +99,7 @@ namespace {
     }
 
     inline std::vector<int> ijk_to_lagrange_hex(const int p_order) {
-        static std::vector<int> map;
+        std::vector<int> map;
 
         int order[3] = {p_order, p_order, p_order};
         for (int k = 0; k <= p_order; k++)
-- 
2.43.0


From 9bf733953348222022c0c2cb444bbb145ca43d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 65/80] fix: refuse VTK meshes with missing lines instead of
 reading past them

---
 legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp b/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
index 4592a03..77ae11c 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
+++ b/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
@@ -141,7 +141,8 @@ namespace {
     void for_n_lines(std::istream& in, const size_t n, T f) {
         std::string line;
         for (size_t i = 0; i < n; i++) {
-            std::getline(in, line);
+            if (!std::getline(in, line))
+                throw std::runtime_error("The file ends before all lines of a section were read.");
             f(i, line);
         }
     }
@@ -159,7 +160,10 @@ namespace {
     mtr::CArray<T> read_1darray(std::istream& in, const size_t length) {
         mtr::CArray<T> data = mtr::CArray<int>(length);
         for_n_lines(in, length, [&](const size_t i, const std::string& line) {
-            data(i) = parse_line<T>(line)[0];
+            const auto values = parse_line<T>(line);
+            if (values.empty())
+                throw std::runtime_error("A value is missing.");
+            data(i) = values[0];
         });
         return data;
     }
@@ -193,8 +197,11 @@ namespace {
         if (elem_point_index.size() == 0)
             return false;
         
-        for (auto& row : elem_point_index)
+        for (auto& row : elem_point_index) {
+            if (row.empty() || (size_t)row[0] + 1 != row.size())
+                throw std::runtime_error("A cell does not have the number of points it announces.");
             row.erase(row.begin()); // First column is points per element.
+        }
         
         mesh.element_point_index = vec_to_array(elem_point_index);
         return true;
-- 
2.43.0


From 0598a90ccf1d102ce06648a32f1379c599a2608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 66/80] fix: read plane and high order VTK meshes as they were
 written

---
 .../src/Mesh-Builder/include/VtkIO.h          |  4 ++++
 .../Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp  | 21 +++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h b/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
index 9410215..c7ba87d 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
+++ b/legacy/Fierro_V0/src/Mesh-Builder/include/VtkIO.h
@@ -135,6 +135,10 @@ namespace VtkIO {
         return (vtkCellType >= 68) && (vtkCellType <= 74);
     }
 
+    inline bool is_quadrilateral(int vtkCellType) {
+        return (vtkCellType == 9) || (vtkCellType == 70);
+    }
+
     inline std::vector<int> lagrange_to_ijk(const int num_dim, const int p_order) {
         switch (num_dim) {
         case 2:
diff --git a/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp b/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
index 77ae11c..fd48de3 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
+++ b/legacy/Fierro_V0/src/Mesh-Builder/src/VtkIO.cpp
@@ -244,10 +244,23 @@ Mesh MeshIO::read_vtk(std::istream& in, bool verbose) {
             found_cell_types = true;
     }
 
-    if (found_points && found_cells)
-        mesh.p_order = std::pow(mesh.element_point_index.dims(1), 1.0 / mesh.num_dim);
+    if (!found_points || !found_cells || !found_cell_types)
+        throw std::runtime_error("The file lacks the points, cells or cell types of a mesh.");
 
-    if (!mesh.validate()) {
+    // VTK points always have three coordinates: the type of the cells tells plane meshes.
+    if (VtkIO::is_quadrilateral(mesh.element_types(0)) && mesh.points.dims(1) == 3) {
+        auto points = mtr::CArray<double>(mesh.points.dims(0), 2);
+        for (size_t i = 0; i < points.dims(0); i++)
+            for (size_t j = 0; j < 2; j++)
+                points(i, j) = mesh.points(i, j);
+        mesh.points = points;
+        mesh.num_dim = 2;
+    }
+
+    // An element of order p has p + 1 points along each edge.
+    mesh.p_order = std::lround(std::pow(mesh.element_point_index.dims(1), 1.0 / mesh.num_dim)) - 1;
+
+    if (!mesh.validate() || std::lround(std::pow(mesh.p_order + 1, mesh.num_dim)) != mesh.element_point_index.dims(1)) {
         throw std::runtime_error("Invalid mesh constructed.");
     }
     
@@ -255,7 +268,7 @@ Mesh MeshIO::read_vtk(std::istream& in, bool verbose) {
         if (VtkIO::is_lagrange_ordered(mesh.element_types(0))) {
             _Impl::reorder_columns(
                 mesh.element_point_index,
-                VtkIO::ijk_to_lagrange(mesh.num_dim, mesh.p_order).data()
+                VtkIO::lagrange_to_ijk(mesh.num_dim, mesh.p_order).data()
             );
         } else {
             _Impl::reorder_columns(
-- 
2.43.0


From c3ec3cd02f91f9602d6039c0215309b92f9c45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 67/80] fix: write EnSight files of any name length

---
 legacy/Fierro_V0/src/Mesh-Builder/src/EnsightIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legacy/Fierro_V0/src/Mesh-Builder/src/EnsightIO.cpp b/legacy/Fierro_V0/src/Mesh-Builder/src/EnsightIO.cpp
index dd76282..8e6e276 100644
--- a/legacy/Fierro_V0/src/Mesh-Builder/src/EnsightIO.cpp
+++ b/legacy/Fierro_V0/src/Mesh-Builder/src/EnsightIO.cpp
@@ -114,25 +114,25 @@ void MeshIO::write_ensight(std::string filename, const Mesh& mesh, bool verbose)
     if (mesh.p_order > 1)
         throw std::runtime_error("Cannot write a high order mesh to Ensight format.");
 
-    char name[100];
+    std::string name;
     std::string fp;
     
     IOUtilities::mkdir("ensight/data");
 
     // 1 is required because Ensight dump 1 is the t=0 dump
-    sprintf(name, "%s.%05d.geo", filename.c_str(), 1);
+    name = filename + ".00001.geo";
     fp = std::filesystem::path("ensight") / "data" / name;
     if (verbose)
         std::cout << "Creating file: " << fp << std::endl;
     write_geometry(fp.c_str(), mesh);
     
-    sprintf(name, "%s.%05d.var", filename.c_str(), 1);
+    name = filename + ".00001.var";
     fp = std::filesystem::path("ensight") / "data" / name;
     if (verbose)
         std::cout << "Creating file: " << fp << std::endl;
     write_variables(fp.c_str(), mesh);
     
-    sprintf(name, "%s.case", filename.c_str());
+    name = filename + ".case";
     fp = std::filesystem::path("ensight") / name;
     if (verbose)
         std::cout << "Creating file: " << fp << std::endl;
-- 
2.43.0


From 3a7dabdb1b948f633973e18b6cae849a729f29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 68/80] fix: micromechanics: an RVE one voxel thick in x or y
 (globally or on a rank) no longer gets a NaN voxel size

---
 apps/micromechanics/EVPFFT/src/step.cpp       | 18 +++++++++++-------
 apps/micromechanics/LS-EVPFFT-J2/src/step.cpp | 18 +++++++++++-------
 apps/micromechanics/LS-EVPFFT/src/step.cpp    | 18 +++++++++++-------
 apps/micromechanics/LSNP-EVPFFT/src/step.cpp  | 18 +++++++++++-------
 4 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/step.cpp b/apps/micromechanics/EVPFFT/src/step.cpp
index 4557f29..979681a 100644
--- a/apps/micromechanics/EVPFFT/src/step.cpp
+++ b/apps/micromechanics/EVPFFT/src/step.cpp
@@ -151,18 +151,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1)=(delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2)=(delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp
index 33f1e53..6b58865 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/step.cpp
@@ -149,18 +149,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1)=(delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2)=(delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/step.cpp b/apps/micromechanics/LS-EVPFFT/src/step.cpp
index 33f1e53..6b58865 100644
--- a/apps/micromechanics/LS-EVPFFT/src/step.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/step.cpp
@@ -149,18 +149,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1)=(delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2)=(delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/step.cpp b/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
index a7f3e5a..6dbadaf 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/step.cpp
@@ -176,18 +176,22 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3-1);
+  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
 
   //   UPDATE DELT
-  delt(1) = (delt(1)*(npts1-1)+velmax(1)*tdot)/(npts1-1);
-  delt(2) = (delt(2)*(npts2-1)+velmax(2)*tdot)/(npts2-1);
-  if (npts3 > 1) {
-     delt(3)=(delt(3)*(npts3-1)+velmax(3)*tdot)/(npts3-1);
+  if (npts1_g > 1) {
+     delt(1)=(delt(1)*(npts1_g-1)+velmax(1)*tdot)/(npts1_g-1);
+  }
+  if (npts2_g > 1) {
+     delt(2)=(delt(2)*(npts2_g-1)+velmax(2)*tdot)/(npts2_g-1);
+  }
+  if (npts3_g > 1) {
+     delt(3)=(delt(3)*(npts3_g-1)+velmax(3)*tdot)/(npts3_g-1);
   }
 
 }
-- 
2.43.0


From 822bb277aa552e4abcfb236f35b76d1f7efedc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 69/80] fix: EVPFFT: count the imposed spin once in the lattice
 rotation

---
 apps/micromechanics/EVPFFT/src/update_orient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/micromechanics/EVPFFT/src/update_orient.cpp b/apps/micromechanics/EVPFFT/src/update_orient.cpp
index 426e51c..10a654a 100644
--- a/apps/micromechanics/EVPFFT/src/update_orient.cpp
+++ b/apps/micromechanics/EVPFFT/src/update_orient.cpp
@@ -97,7 +97,8 @@ void EVPFFT::update_orient()
 //
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          rot(ii,jj) = (tomtot(ii,jj)+rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
+          // velgrad contains the imposed velocity gradient, so rotloc already includes its spin
+          rot(ii,jj) = (rotloc(ii,jj)-rotslip(ii,jj)) * tdot;
         }
       }
 
-- 
2.43.0


From 249587df9b5e8ca644fce4e7410b49a09adeac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 70/80] fix: micromechanics: a stress-controlled shear adjusts
 the free velocity-gradient component, not the imposed one

---
 apps/micromechanics/EVPFFT/src/get_smacro.cpp       | 5 +++++
 apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp | 5 +++++
 apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp    | 5 +++++
 apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp  | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/get_smacro.cpp b/apps/micromechanics/EVPFFT/src/get_smacro.cpp
index 068aac8..6cff816 100644
--- a/apps/micromechanics/EVPFFT/src/get_smacro.cpp
+++ b/apps/micromechanics/EVPFFT/src/get_smacro.cpp
@@ -63,6 +63,11 @@ void EVPFFT::get_smacro()
 
     ii = ijv(i,1);
     jj = ijv(i,2);
+    // adjust the free component of a shear, not the imposed one
+    if (i > 3 && iudot(ii,jj) == 1) {
+      ii = ijv(i,2);
+      jj = ijv(i,1);
+    }
 
     ddisgradmacro.host(ii,jj) = 0.0;
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp
index 1fb61d8..a32be45 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp
@@ -63,6 +63,11 @@ void EVPFFT::get_smacro()
 
     ii = ijv(i,1);
     jj = ijv(i,2);
+    // adjust the free component of a shear, not the imposed one
+    if (i > 3 && iudot(ii,jj) == 1) {
+      ii = ijv(i,2);
+      jj = ijv(i,1);
+    }
 
     dvelgradmacro(ii,jj) = 0.0;
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp b/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp
index 1fb61d8..a32be45 100644
--- a/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp
@@ -63,6 +63,11 @@ void EVPFFT::get_smacro()
 
     ii = ijv(i,1);
     jj = ijv(i,2);
+    // adjust the free component of a shear, not the imposed one
+    if (i > 3 && iudot(ii,jj) == 1) {
+      ii = ijv(i,2);
+      jj = ijv(i,1);
+    }
 
     dvelgradmacro(ii,jj) = 0.0;
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp b/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp
index 901bf1a..1c169d9 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp
@@ -67,6 +67,11 @@ void EVPFFT::get_smacro()
 
     ii = ijv(i,1);
     jj = ijv(i,2);
+    // adjust the free component of a shear, not the imposed one
+    if (i > 3 && iudot(ii,jj) == 1) {
+      ii = ijv(i,2);
+      jj = ijv(i,1);
+    }
 
     dvelgradmacro(ii,jj) = 0.0;
 
-- 
2.43.0


From 1cf7037f4e5b5ed5388b6d8ae99d60a5f3064ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 71/80] fix: micromechanics: do not end a step before the
 imposed macroscopic stress is reached

---
 apps/micromechanics/EVPFFT/src/get_smacro.cpp       | 3 +++
 apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp | 3 +++
 apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp    | 3 +++
 apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp  | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/get_smacro.cpp b/apps/micromechanics/EVPFFT/src/get_smacro.cpp
index 6cff816..60d4108 100644
--- a/apps/micromechanics/EVPFFT/src/get_smacro.cpp
+++ b/apps/micromechanics/EVPFFT/src/get_smacro.cpp
@@ -72,6 +72,9 @@ void EVPFFT::get_smacro()
     ddisgradmacro.host(ii,jj) = 0.0;
 
     if (idsim(i) == 0) {
+      // the step has not converged before the imposed stress is reached
+      errs = fmax(errs, POW2(scauchy(ii,jj) - scauav(ii,jj)));
+
       for (int k = 1; k <= 6; k++) {
         kk = ijv(k,1);
         ll = ijv(k,2);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp
index a32be45..f1fb108 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/get_smacro.cpp
@@ -72,6 +72,9 @@ void EVPFFT::get_smacro()
     dvelgradmacro(ii,jj) = 0.0;
 
     if (idsim(i) == 0) {
+      // the step has not converged before the imposed stress is reached
+      errs = fmax(errs, POW2(scauchy(ii,jj) - scauav(ii,jj)));
+
       for (int k = 1; k <= 6; k++) {
         kk = ijv(k,1);
         ll = ijv(k,2);
diff --git a/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp b/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp
index a32be45..f1fb108 100644
--- a/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/get_smacro.cpp
@@ -72,6 +72,9 @@ void EVPFFT::get_smacro()
     dvelgradmacro(ii,jj) = 0.0;
 
     if (idsim(i) == 0) {
+      // the step has not converged before the imposed stress is reached
+      errs = fmax(errs, POW2(scauchy(ii,jj) - scauav(ii,jj)));
+
       for (int k = 1; k <= 6; k++) {
         kk = ijv(k,1);
         ll = ijv(k,2);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp b/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp
index 1c169d9..4c7eac4 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/get_smacro.cpp
@@ -76,6 +76,9 @@ void EVPFFT::get_smacro()
     dvelgradmacro(ii,jj) = 0.0;
 
     if (idsim(i) == 0) {
+      // the step has not converged before the imposed stress is reached
+      errs = fmax(errs, POW2(scauchy(ii,jj) - scauav(ii,jj)));
+
       for (int k = 1; k <= 6; k++) {
         kk = ijv(k,1);
         ll = ijv(k,2);
-- 
2.43.0


From fe9544582b8db41822b282c7267bd2164bf6fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 72/80] fix: micromechanics: the volume fraction of phase 1
 counts the voxels of all ranks

---
 apps/micromechanics/EVPFFT/src/data_grain.cpp       | 1 +
 apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp | 1 +
 apps/micromechanics/LS-EVPFFT/src/data_grain.cpp    | 1 +
 apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/data_grain.cpp b/apps/micromechanics/EVPFFT/src/data_grain.cpp
index d9c5fa0..a67724f 100644
--- a/apps/micromechanics/EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_grain.cpp
@@ -144,6 +144,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
index 2fbded4..9582d27 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_grain.cpp
@@ -144,6 +144,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
index 2fbded4..9582d27 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_grain.cpp
@@ -144,6 +144,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
index 3784294..eaed6d0 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_grain.cpp
@@ -148,6 +148,7 @@ void EVPFFT::data_grain(const std::string & filetext)
   print_array_to_file(c066.host_pointer(), c066.size(), my_rank, "c066.txt");
 #endif
 
+  MPI_Allreduce(MPI_IN_PLACE, &nph1, 1, MPI_INT, MPI_SUM, mpi_comm);
   wph1 = (1.0*nph1)/(npts1_g*npts2_g*npts3_g);
 
   MatrixTypeRealHost s066(6,6);
-- 
2.43.0


From 5686b485338da21573778610ab5228ec17d049ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 73/80] fix: micromechanics: refuse non-orthogonal slip systems
 of either sign

---
 apps/micromechanics/EVPFFT/src/data_crystal.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/data_crystal.cpp b/apps/micromechanics/EVPFFT/src/data_crystal.cpp
index ab38313..b3aeb8d 100644
--- a/apps/micromechanics/EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/EVPFFT/src/data_crystal.cpp
@@ -198,7 +198,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
index c3f31fd..b62c1e4 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/data_crystal.cpp
@@ -217,7 +217,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
             prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
           }
   
-          if (prod >= 1.0e-3) {
+          if (fabs(prod) >= 1.0e-3) {
             printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
             printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
             printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
diff --git a/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp b/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
index 41de50d..db227ee 100644
--- a/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/data_crystal.cpp
@@ -217,7 +217,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
index ab38313..b3aeb8d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/data_crystal.cpp
@@ -198,7 +198,7 @@ void EVPFFT::data_crystal(int iph, const std::string & filecryspl)
           prod += dnca.host(j,nsysx,iph) * dbca.host(j,nsysx,iph);
         }
 
-        if (prod >= 1.0e-3) {
+        if (fabs(prod) >= 1.0e-3) {
           printf("SYSTEM %d IN MODE %d IN PHASE %d IS NOT ORTHOGONAL !!\n", js, nm, iph);
           printf("%d %d %d", isb(js,1), isb(js,2), isb(js,3));
           printf("%d %d %d", isn(js,1), isn(js,2), isn(js,3));
-- 
2.43.0


From 28fd4204c0b7753cbad3ae134246947eed1a1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 74/80] fix: micromechanics: skip the rest of a line of the
 thermal-strain file in that file

---
 apps/micromechanics/EVPFFT/src/vpsc_input.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
index 9328efd..7a6abe3 100644
--- a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
@@ -204,7 +204,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
index dda515d..ff5494b 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/vpsc_input.cpp
@@ -211,7 +211,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
index 2a5d0e2..2e0242f 100644
--- a/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/vpsc_input.cpp
@@ -211,7 +211,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
index 9df34b1..5c506f8 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/vpsc_input.cpp
@@ -231,7 +231,7 @@ void EVPFFT::vpsc_input()
     for (int ig = 1; ig <= num_crystals; ig++) {
       f49 >> eth(1,1,ig) >> eth(2,2,ig)
           >> eth(3,3,ig) >> eth(2,3,ig)
-          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(ur0);
+          >> eth(3,1,ig) >> eth(1,2,ig); CLEAR_LINE(f49);
 
       eth(3,2,ig) = eth(2,3,ig);
       eth(1,3,ig) = eth(3,1,ig);
-- 
2.43.0


From 2be80d7df051e172891540f79ed35a22cfbb1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 75/80] fix: micromechanics: the texture file holds the voxels
 of all ranks

---
 .../EVPFFT/src/write_texture.cpp              | 28 +++++++++++--------
 .../LS-EVPFFT-J2/src/write_texture.cpp        | 28 +++++++++++--------
 .../LS-EVPFFT/src/write_texture.cpp           | 28 +++++++++++--------
 .../LSNP-EVPFFT/src/write_texture.cpp         | 28 +++++++++++--------
 4 files changed, 68 insertions(+), 44 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_texture.cpp b/apps/micromechanics/EVPFFT/src/write_texture.cpp
index 4a74171..1d561ea 100644
--- a/apps/micromechanics/EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_texture.cpp
@@ -7,7 +7,11 @@ void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // the ranks write their voxels one after the other
+  for (int rank = 0; rank < num_ranks; rank++) {
+
+    MPI_Barrier(mpi_comm);
+    if (rank != my_rank) continue;
 
     ag.update_host();
 
@@ -16,7 +20,7 @@ void EVPFFT::write_texture()
     int ig;
     real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", my_rank == 0 ? "w" : "a"), &fclose);
 
     one = 1.0;
 
@@ -30,15 +34,17 @@ void EVPFFT::write_texture()
       fbar(i,i) = delt(i);
     }
 
-    fprintf(file_24.get(), "TEX.OUT from FFT\n");
-    fprintf(file_24.get(), "Formatted to plot with POLE\n");
-    for (int j = 1; j <= 3; j++) {
-      for (int i = 1; i <= 3; i++) {
-        fprintf(file_24.get(), "%7.3f", fbar(i,j));
+    if (my_rank == 0) {
+      fprintf(file_24.get(), "TEX.OUT from FFT\n");
+      fprintf(file_24.get(), "Formatted to plot with POLE\n");
+      for (int j = 1; j <= 3; j++) {
+        for (int i = 1; i <= 3; i++) {
+          fprintf(file_24.get(), "%7.3f", fbar(i,j));
+        }
       }
+      fprintf(file_24.get(), "\n");
+      fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
     }
-    fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
 
 
     ig = 0;
@@ -60,13 +66,13 @@ void EVPFFT::write_texture()
                   "%9.3f%9.3f%9.3f%9.3f"
                   "%5d%5d%5d%5d%5d\n",
                   ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
+                  i+local_start1,j+local_start2,k+local_start3,jgrain(i,j,k),jphase.host(i,j,k)
           );
 
         } // end for ii
       } // end for jj
     } // end for kk
 
-  } // end if(iwtex .eq. 1)
+  } // end for rank
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
index 4a74171..1d561ea 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
@@ -7,7 +7,11 @@ void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // the ranks write their voxels one after the other
+  for (int rank = 0; rank < num_ranks; rank++) {
+
+    MPI_Barrier(mpi_comm);
+    if (rank != my_rank) continue;
 
     ag.update_host();
 
@@ -16,7 +20,7 @@ void EVPFFT::write_texture()
     int ig;
     real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", my_rank == 0 ? "w" : "a"), &fclose);
 
     one = 1.0;
 
@@ -30,15 +34,17 @@ void EVPFFT::write_texture()
       fbar(i,i) = delt(i);
     }
 
-    fprintf(file_24.get(), "TEX.OUT from FFT\n");
-    fprintf(file_24.get(), "Formatted to plot with POLE\n");
-    for (int j = 1; j <= 3; j++) {
-      for (int i = 1; i <= 3; i++) {
-        fprintf(file_24.get(), "%7.3f", fbar(i,j));
+    if (my_rank == 0) {
+      fprintf(file_24.get(), "TEX.OUT from FFT\n");
+      fprintf(file_24.get(), "Formatted to plot with POLE\n");
+      for (int j = 1; j <= 3; j++) {
+        for (int i = 1; i <= 3; i++) {
+          fprintf(file_24.get(), "%7.3f", fbar(i,j));
+        }
       }
+      fprintf(file_24.get(), "\n");
+      fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
     }
-    fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
 
 
     ig = 0;
@@ -60,13 +66,13 @@ void EVPFFT::write_texture()
                   "%9.3f%9.3f%9.3f%9.3f"
                   "%5d%5d%5d%5d%5d\n",
                   ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
+                  i+local_start1,j+local_start2,k+local_start3,jgrain(i,j,k),jphase.host(i,j,k)
           );
 
         } // end for ii
       } // end for jj
     } // end for kk
 
-  } // end if(iwtex .eq. 1)
+  } // end for rank
 
 }
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
index 4a74171..1d561ea 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
@@ -7,7 +7,11 @@ void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // the ranks write their voxels one after the other
+  for (int rank = 0; rank < num_ranks; rank++) {
+
+    MPI_Barrier(mpi_comm);
+    if (rank != my_rank) continue;
 
     ag.update_host();
 
@@ -16,7 +20,7 @@ void EVPFFT::write_texture()
     int ig;
     real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", my_rank == 0 ? "w" : "a"), &fclose);
 
     one = 1.0;
 
@@ -30,15 +34,17 @@ void EVPFFT::write_texture()
       fbar(i,i) = delt(i);
     }
 
-    fprintf(file_24.get(), "TEX.OUT from FFT\n");
-    fprintf(file_24.get(), "Formatted to plot with POLE\n");
-    for (int j = 1; j <= 3; j++) {
-      for (int i = 1; i <= 3; i++) {
-        fprintf(file_24.get(), "%7.3f", fbar(i,j));
+    if (my_rank == 0) {
+      fprintf(file_24.get(), "TEX.OUT from FFT\n");
+      fprintf(file_24.get(), "Formatted to plot with POLE\n");
+      for (int j = 1; j <= 3; j++) {
+        for (int i = 1; i <= 3; i++) {
+          fprintf(file_24.get(), "%7.3f", fbar(i,j));
+        }
       }
+      fprintf(file_24.get(), "\n");
+      fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
     }
-    fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
 
 
     ig = 0;
@@ -60,13 +66,13 @@ void EVPFFT::write_texture()
                   "%9.3f%9.3f%9.3f%9.3f"
                   "%5d%5d%5d%5d%5d\n",
                   ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
+                  i+local_start1,j+local_start2,k+local_start3,jgrain(i,j,k),jphase.host(i,j,k)
           );
 
         } // end for ii
       } // end for jj
     } // end for kk
 
-  } // end if(iwtex .eq. 1)
+  } // end for rank
 
 }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
index d04d4f0..a78c5e7 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
@@ -7,7 +7,11 @@ void EVPFFT::write_texture()
 {
   Profiler profiler(__FUNCTION__);
 
-  if(my_rank == 0) {
+  // the ranks write their voxels one after the other
+  for (int rank = 0; rank < num_ranks; rank++) {
+
+    MPI_Barrier(mpi_comm);
+    if (rank != my_rank) continue;
 
     ag.update_host();
 
@@ -16,7 +20,7 @@ void EVPFFT::write_texture()
     int ig;
     real_t ph, th, om, one;
 
-    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", my_rank == 0 ? "w" : "a"), &fclose);
 
     one = 1.0;
 
@@ -30,15 +34,17 @@ void EVPFFT::write_texture()
       fbar(i,i) = delt(i);
     }
 
-    fprintf(file_24.get(), "TEX.OUT from FFT\n");
-    fprintf(file_24.get(), "Formatted to plot with POLE\n");
-    for (int j = 1; j <= 3; j++) {
-      for (int i = 1; i <= 3; i++) {
-        fprintf(file_24.get(), "%7.3f", fbar(i,j));
+    if (my_rank == 0) {
+      fprintf(file_24.get(), "TEX.OUT from FFT\n");
+      fprintf(file_24.get(), "Formatted to plot with POLE\n");
+      for (int j = 1; j <= 3; j++) {
+        for (int i = 1; i <= 3; i++) {
+          fprintf(file_24.get(), "%7.3f", fbar(i,j));
+        }
       }
+      fprintf(file_24.get(), "\n");
+      fprintf(file_24.get(), "B %10d\n", npts1_g*npts2_g*npts3_g);
     }
-    fprintf(file_24.get(), "\n");
-    fprintf(file_24.get(), "B %10d\n", npts1*npts2*npts3);
 
 
     ig = 0;
@@ -62,7 +68,7 @@ void EVPFFT::write_texture()
                   "%9.3f%9.3f%9.3f%9.3f"
                   "%5d%5d%5d%5d%5d\n",
                   ph,th,om,one,
-                  i,j,k,jgrain(i,j,k),jphase.host(i,j,k)
+                  i+local_start1,j+local_start2,k+local_start3,jgrain(i,j,k),jphase.host(i,j,k)
           );
 
           }
@@ -71,6 +77,6 @@ void EVPFFT::write_texture()
       } // end for jj
     } // end for kk
 
-  } // end if(iwtex .eq. 1)
+  } // end for rank
 
 }
-- 
2.43.0


From 1970f304ddf0b0b6a8649eee5cd2a1bb6036645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 76/80] fix: micromechanics: lattice rotations below 1e-6 per
 step are not dropped

---
 apps/micromechanics/EVPFFT/src/orient.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/orient.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/orient.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/orient.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/orient.cpp b/apps/micromechanics/EVPFFT/src/orient.cpp
index 8d46377..08c5f34 100644
--- a/apps/micromechanics/EVPFFT/src/orient.cpp
+++ b/apps/micromechanics/EVPFFT/src/orient.cpp
@@ -33,7 +33,7 @@ void orient(real_t *a_, real_t *c_)
   v(3) = c(2,1);
   snorm = SQRT(v(1)*v(1)+v(2)*v(2)+v(3)*v(3));
   snorm1 = TAN(snorm/2.0);
-  if (snorm > 1.0E-06) goto label_97;
+  if (snorm > 0.0) goto label_97;
   snorm = 1.0;
 
 label_97 : {
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/orient.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/orient.cpp
index 8d46377..08c5f34 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/orient.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/orient.cpp
@@ -33,7 +33,7 @@ void orient(real_t *a_, real_t *c_)
   v(3) = c(2,1);
   snorm = SQRT(v(1)*v(1)+v(2)*v(2)+v(3)*v(3));
   snorm1 = TAN(snorm/2.0);
-  if (snorm > 1.0E-06) goto label_97;
+  if (snorm > 0.0) goto label_97;
   snorm = 1.0;
 
 label_97 : {
diff --git a/apps/micromechanics/LS-EVPFFT/src/orient.cpp b/apps/micromechanics/LS-EVPFFT/src/orient.cpp
index 8d46377..08c5f34 100644
--- a/apps/micromechanics/LS-EVPFFT/src/orient.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/orient.cpp
@@ -33,7 +33,7 @@ void orient(real_t *a_, real_t *c_)
   v(3) = c(2,1);
   snorm = SQRT(v(1)*v(1)+v(2)*v(2)+v(3)*v(3));
   snorm1 = TAN(snorm/2.0);
-  if (snorm > 1.0E-06) goto label_97;
+  if (snorm > 0.0) goto label_97;
   snorm = 1.0;
 
 label_97 : {
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/orient.cpp b/apps/micromechanics/LSNP-EVPFFT/src/orient.cpp
index 8d46377..08c5f34 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/orient.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/orient.cpp
@@ -33,7 +33,7 @@ void orient(real_t *a_, real_t *c_)
   v(3) = c(2,1);
   snorm = SQRT(v(1)*v(1)+v(2)*v(2)+v(3)*v(3));
   snorm1 = TAN(snorm/2.0);
-  if (snorm > 1.0E-06) goto label_97;
+  if (snorm > 0.0) goto label_97;
   snorm = 1.0;
 
 label_97 : {
-- 
2.43.0


From 45a35d982e76012358692d5fd325b121b2323688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 77/80] fix: EVPFFT: the RVE stretches with its actual strain
 rate where the stress is imposed

---
 apps/micromechanics/EVPFFT/src/step.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/step.cpp b/apps/micromechanics/EVPFFT/src/step.cpp
index 979681a..cd39eac 100644
--- a/apps/micromechanics/EVPFFT/src/step.cpp
+++ b/apps/micromechanics/EVPFFT/src/step.cpp
@@ -151,9 +151,9 @@ void EVPFFT::step_texture_rve_update()
   Profiler profiler(__FUNCTION__);
 
   //   VELMAX
-  velmax(1) = dsim(1,1)*delt(1)*(npts1_g-1);
-  velmax(2) = dsim(2,2)*delt(2)*(npts2_g-1);
-  velmax(3) = dsim(3,3)*delt(3)*(npts3_g-1);
+  velmax(1) = velgradmacro(1,1)*delt(1)*(npts1_g-1);
+  velmax(2) = velgradmacro(2,2)*delt(2)*(npts2_g-1);
+  velmax(3) = velgradmacro(3,3)*delt(3)*(npts3_g-1);
 
   //   UPDATE ORIENTATIONS
   update_orient();
-- 
2.43.0


From e723ba65ab1ab4423397481a387d87eeed780680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 78/80] fix: micromechanics: the equivalent stress is computed
 in full precision

---
 apps/micromechanics/EVPFFT/src/vm.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/vm.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/vm.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/vm.cpp b/apps/micromechanics/EVPFFT/src/vm.cpp
index db5872a..eced6c9 100644
--- a/apps/micromechanics/EVPFFT/src/vm.cpp
+++ b/apps/micromechanics/EVPFFT/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = sqrt((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp
index db5872a..eced6c9 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = sqrt((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
diff --git a/apps/micromechanics/LS-EVPFFT/src/vm.cpp b/apps/micromechanics/LS-EVPFFT/src/vm.cpp
index db5872a..eced6c9 100644
--- a/apps/micromechanics/LS-EVPFFT/src/vm.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = sqrt((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp b/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp
index db5872a..eced6c9 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/vm.cpp
@@ -37,7 +37,7 @@ KOKKOS_FUNCTION
 real_t vm_stress(real_t *stress) {
     /* Returns VonMises stress */
 
-    real_t von_mises = sqrtf((((stress[0] - stress[4])*(stress[0] - stress[4])) 
+    real_t von_mises = sqrt((((stress[0] - stress[4])*(stress[0] - stress[4])) 
                        +        ((stress[4] - stress[8])*(stress[4] - stress[8]))
                        +        ((stress[8] - stress[0])*(stress[8] - stress[0]))
                        +   6*(pow(stress[1], 2.0)+pow(stress[5],2.0)+pow(stress[2],2.0)))/2.0);
-- 
2.43.0


From c8f43362001e15a0932228ea7ecce668a2db1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 79/80] fix: micromechanics: inverse pole figure colours of the
 crystal direction, with angles in radians

---
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp      | 5 ++++-
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp   | 5 ++++-
 apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 7936527..71a3f68 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -235,10 +235,13 @@ void calc_IPF_colors(
 
       for (int ii = 1; ii <= 3; ii++) {
         for (int jj = 1; jj <= 3; jj++) {
-          aa(ii,jj) = ag(ii,jj,i,j,k);
+          aa(ii,jj) = ag(jj,ii,i,j,k);
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) *= pi/180.0; // euler gives degrees
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index 05c6fd6..f4248b9 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -256,11 +256,14 @@ void calc_IPF_colors(
         for (int jj = 1; jj <= 3; jj++) {
           aa(ii,jj) = 0.0;
           for (int kk = 1; kk <= 3; kk++) {
-            aa(ii,jj) =+ ag(ii,kk,i,j,k) * R(kk,jj);
+            aa(ii,jj) += R(jj,kk) * ag(kk,ii,i,j,k);
           }
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) *= pi/180.0; // euler gives degrees
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
index 4f2ebb2..363107d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
@@ -270,11 +270,14 @@ void calc_IPF_colors(
         for (int jj = 1; jj <= 3; jj++) {
           aa(ii,jj) = 0.0;
           for (int kk = 1; kk <= 3; kk++) {
-            aa(ii,jj) =+ ag(ii,kk,i,j,k) * R(kk,jj);
+            aa(ii,jj) += R(jj,kk) * ag(kk,ii,i,j,k);
           }
         }
       }
       euler(1, eulers(1), eulers(2), eulers(3), aa.pointer());
+      for (int ii = 1; ii <= 3; ii++) {
+        eulers(ii) *= pi/180.0; // euler gives degrees
+      }
   
       double hkl[3]; //set reference direction for IPF
       hkl[0] = 0.;
-- 
2.43.0


From e28086e5f91ce6b6dfd16d89a4cd5017f7a77f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 80/80] fix: EVPFFT: the points of the output files are the
 deformed initial points

---
 apps/micromechanics/EVPFFT/src/allocate_memory.cpp   | 1 +
 apps/micromechanics/EVPFFT/src/evpfft.h              | 1 +
 apps/micromechanics/EVPFFT/src/vpsc_input.cpp        | 1 +
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp | 6 +++---
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/allocate_memory.cpp b/apps/micromechanics/EVPFFT/src/allocate_memory.cpp
index 558c8e5..4ee18d6 100644
--- a/apps/micromechanics/EVPFFT/src/allocate_memory.cpp
+++ b/apps/micromechanics/EVPFFT/src/allocate_memory.cpp
@@ -35,6 +35,7 @@ void EVPFFT::allocate_memory()
   sdeviat = MatrixTypeRealHost (3,3);
   tomtot = MatrixTypeRealDual (3,3);
   delt = MatrixTypeRealHost (3);
+  delt0 = MatrixTypeRealHost (3);
 
   disgradmacro = MatrixTypeRealDual (3,3);
   ddisgradmacro = MatrixTypeRealDual (3,3);
diff --git a/apps/micromechanics/EVPFFT/src/evpfft.h b/apps/micromechanics/EVPFFT/src/evpfft.h
index feaad5b..955a6bd 100644
--- a/apps/micromechanics/EVPFFT/src/evpfft.h
+++ b/apps/micromechanics/EVPFFT/src/evpfft.h
@@ -101,6 +101,7 @@ public:
   //MatrixTypeRealHost dbar5;
   //MatrixTypeRealHost dbar6;
   MatrixTypeRealHost delt;
+  MatrixTypeRealHost delt0; // voxel size before deformation
   real_t deltvol3;
   real_t tdot;
 
diff --git a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
index 7a6abe3..a50fb15 100644
--- a/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
+++ b/apps/micromechanics/EVPFFT/src/vpsc_input.cpp
@@ -64,6 +64,7 @@ void EVPFFT::vpsc_input()
 
   // RVE DIMENSIONS
   ur0 >> delt(1) >> delt(2) >> delt(3); CLEAR_LINE(ur0);
+  for (int i = 1; i <= 3; i++) delt0(i) = delt(i);
   deltvol3 = pow(delt(1) * delt(2) * delt(3), 1.0/3.0);
 
   ur0 >> prosa; CLEAR_LINE(ur0);
diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 71a3f68..35332ca 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -492,7 +492,7 @@ void EVPFFT::write_micro_state_pvtu()
       }
       if (ii==jj) {defgradavg.host(ii,jj) += 1.0;}
     }
-    delt_dual.host(ii) = delt(ii);
+    delt_dual.host(ii) = delt0(ii);
   }
   defgradavg.update_device();
   delt_dual.update_device();
@@ -510,9 +510,9 @@ void EVPFFT::write_micro_state_pvtu()
         for (int ii = 1; ii <= 3; ii++) {
           real_t dum = 0.0;
           for (int jj = 1; jj <= 3; jj++) {
-            dum += defgradavg(ii,jj)*xtmp[jj-1];
+            dum += defgradavg(ii,jj)*xtmp[jj-1]*delt_dual(jj);
           }
-          xintp(ii,kx,ky,kz) = dum*delt_dual(ii);
+          xintp(ii,kx,ky,kz) = dum;
         }
   }); // end FOR_ALL_CLASS
   Kokkos::fence();
-- 
2.43.0

