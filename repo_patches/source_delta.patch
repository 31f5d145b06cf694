From 1b54a41c8ef7d05290ef94f6602d58fd2d8eefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 01/58] fix: Yaml: skip every token inside a quoted section,
 not just the first

FindNotCited moved on to the next quote after skipping one token, so a
second '#' or ':' inside the same quotes was taken for a comment or a key
(for instance k: "a##").
---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 76e86d1..ba3e8ed 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4104,7 +4104,7 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
             return tokenPos;
         }
         preQuoteCount++;
-        if (tokenPos <= currentQuote.second) {
+        while (tokenPos <= currentQuote.second) {
             // Find next token
             if (tokenPos + 1 == input.size()) {
                 return std::string::npos;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 70adec6..99b51e8 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2614,7 +2614,7 @@ namespace Yaml
                 return tokenPos;
             }
             preQuoteCount++;
-            if(tokenPos <= currentQuote.second)
+            while(tokenPos <= currentQuote.second)
             {
                 // Find next token
                 if(tokenPos + 1 == input.size())
-- 
2.43.0


From 3903c4ce28d1de04dc9f26fd663ade2d503d33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 02/58] fix: Yaml: accept '~', the last printable ASCII
 character

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index ba3e8ed..02fa1c3 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2860,7 +2860,7 @@ private:
 
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
-                if (line[i] != '\t' && (line[i] < 32 || line[i] > 125)) {
+                if (line[i] != '\t' && (line[i] < 32 || line[i] > 126)) {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                 }
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 99b51e8..8b6ed9b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1457,7 +1457,7 @@ namespace Yaml
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
                 {
-                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 125))
+                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 126))
                     {
                         throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                     }
-- 
2.43.0


From 4dd3737353b4dd9a65e3621e7b6304c510111633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 03/58] fix: Yaml: quote serialized text that plain style
 cannot hold

Leading or trailing blanks were lost on re-reading, an empty key or a text
with an apostrophe produced a document the parser rejects.
---
 apps/multiphysics/src/input/Yaml.cpp                | 5 ++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 02fa1c3..e91171d 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4275,7 +4275,10 @@ void CopyNode(const Node& from, Node& to)
 /////////////////////////////////////////////////////////////////////////////
 bool ShouldBeCited(const std::string& key)
 {
-    return key.find_first_of("\":{}[],&*#?|-<>=!%@") != std::string::npos;
+    // Quotes also keep surrounding blanks, an empty key and an apostrophe intact.
+    const std::string blanks = " \t";
+    return key.empty() || blanks.find(key.front()) != std::string::npos || blanks.find(key.back()) != std::string::npos ||
+           key.find_first_of("\":{}[],&*#?|-<>=!%@'") != std::string::npos;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 8b6ed9b..968ec6b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2735,7 +2735,10 @@ namespace Yaml
 
     bool ShouldBeCited(const std::string & key)
     {
-        return key.find_first_of("\":{}[],&*#?|-<>=!%@") != std::string::npos;
+        // Quotes also keep surrounding blanks, an empty key and an apostrophe intact.
+        const std::string blanks = " \t";
+        return key.empty() || blanks.find(key.front()) != std::string::npos || blanks.find(key.back()) != std::string::npos ||
+               key.find_first_of("\":{}[],&*#?|-<>=!%@'") != std::string::npos;
     }
 
     void AddEscapeTokens(std::string & input, const std::string & tokens)
-- 
2.43.0


From d3773c9dba1c089a7a8f3b319b50e0976804d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 04/58] fix: Yaml: keep the first and last character of block
 scalars

Quotes delimit only plain scalars; a block scalar whose text starts with a
quote character lost its first and last character.
---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e91171d..a7ad7ef 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3356,7 +3356,7 @@ private:
             }
         }
 
-        if (data.size() && (data[0] == '"' || data[0] == '\'')) {
+        if (isBlockScalar == false && data.size() && (data[0] == '"' || data[0] == '\'')) {
             data = data.substr(1, data.size() - 2);
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 968ec6b..9e76f42 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2025,7 +2025,7 @@ namespace Yaml
                 }
             }
 
-            if(data.size() && (data[0] == '"' || data[0] == '\''))
+            if(isBlockScalar == false && data.size() && (data[0] == '"' || data[0] == '\''))
             {
                 data = data.substr(1, data.size() - 2 );
             }
-- 
2.43.0


From a38c934157369dd443b48e8ad86ac5607c7ec620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 05/58] fix: Yaml: keep the newline that ends a one-line text
 when serializing

Such a text was written as a plain scalar, which drops the newline.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index a7ad7ef..55ba2c3 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3845,8 +3845,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
         // Folded/plain
         else{
             const std::string frontLine = lines.front();
-            if (config.ScalarMaxLength == 0 || lines.front().size() <= config.ScalarMaxLength
-                || LineFolding(frontLine, lines, config.ScalarMaxLength) == 1) {
+            const bool singleLine = config.ScalarMaxLength == 0 || lines.front().size() <= config.ScalarMaxLength
+                || LineFolding(frontLine, lines, config.ScalarMaxLength) == 1;
+            // A plain scalar cannot carry a trailing newline, a block scalar can.
+            if (singleLine && (endNewline == false || frontLine.empty())) {
                 if (useLevel) {
                     stream << std::string(level, ' ');
                 }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 9e76f42..6217e15 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2448,8 +2448,10 @@ namespace Yaml
                 else
                 {
                     const std::string frontLine = lines.front();
-                    if(config.ScalarMaxLength == 0 || lines.front().size() <= config.ScalarMaxLength ||
-                       LineFolding(frontLine, lines, config.ScalarMaxLength) == 1)
+                    const bool singleLine = config.ScalarMaxLength == 0 || lines.front().size() <= config.ScalarMaxLength ||
+                                            LineFolding(frontLine, lines, config.ScalarMaxLength) == 1;
+                    // A plain scalar cannot carry a trailing newline, a block scalar can.
+                    if(singleLine && (endNewline == false || frontLine.empty()))
                     {
                         if(useLevel)
                         {
-- 
2.43.0


From 51f6e5137a5700e88b721c8b72a15d19bfed838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 06/58] fix: Yaml: Insert and PushFront of a sequence node

Insert with an index in range never terminated, with an index past the end
it leaked the new node and returned a detached one; PushFront overwrote
every entry with the first one, which was then deleted repeatedly.
---
 apps/multiphysics/src/input/Yaml.cpp          | 45 +++++++------------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 45 ++++++-------------
 2 files changed, 30 insertions(+), 60 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 55ba2c3..ae0f0b2 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -298,33 +298,11 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* Insert(const size_t index)
     {
-        if (m_Sequence.size() == 0) {
-            Node* pNode = new Node;
-            m_Sequence.insert({ 0, pNode });
-            return pNode;
-        }
-
-        if (index >= m_Sequence.size()) {
-            auto it = m_Sequence.end();
-            --it;
-            Node* pNode = new Node;
-            m_Sequence.insert({ it->first, pNode });
-            return pNode;
-        }
-
-        auto it = m_Sequence.cbegin();
-        while (it != m_Sequence.cend())
+        if (index >= m_Sequence.size())
         {
-            m_Sequence[it->first + 1] = it->second;
-
-            if (it->first == index) {
-                break;
-            }
+            return PushBack();
         }
-
-        Node* pNode = new Node;
-        m_Sequence.insert({ index, pNode });
-        return pNode;
+        return InsertAt(index);
     }
 
     /////////////////////////////////////////////////////////////////////////////
@@ -345,12 +323,21 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* PushFront()
     {
-        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
-            m_Sequence[it->first + 1] = it->second;
+        return InsertAt(0);
+    }
+
+    // Adds a node at the given index, moving the nodes from that index on by one.
+    Node * InsertAt(const size_t index)
+    {
+        std::map<size_t, Node*> shifted;
+        for (auto it = m_Sequence.begin(); it != m_Sequence.end(); it++)
+        {
+            shifted[it->first < index ? it->first : it->first + 1] = it->second;
         }
+        m_Sequence.swap(shifted);
 
-        Node* pNode = new Node;
-        m_Sequence.insert({ 0, pNode });
+        Node * pNode = new Node;
+        m_Sequence[index] = pNode;
         return pNode;
     }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 6217e15..91c7e5f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -182,47 +182,30 @@ namespace Yaml
 
         virtual Node * Insert(const size_t index)
         {
-            if(m_Sequence.size() == 0)
+            if (index >= m_Sequence.size())
             {
-                Node * pNode = new Node;
-                m_Sequence.insert({0, pNode});
-                return pNode;
-            }
-
-            if(index >= m_Sequence.size())
-            {
-                auto it = m_Sequence.end();
-                --it;
-                Node * pNode = new Node;
-                m_Sequence.insert({it->first, pNode});
-                return pNode;
+                return PushBack();
             }
-
-            auto it = m_Sequence.cbegin();
-            while(it != m_Sequence.cend())
-            {
-                m_Sequence[it->first+1] = it->second;
-
-                if(it->first == index)
-                {
-                    break;
-                }
-            }
-
-            Node * pNode = new Node;
-            m_Sequence.insert({index, pNode});
-            return pNode;
+            return InsertAt(index);
         }
 
         virtual Node * PushFront()
         {
-            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
+            return InsertAt(0);
+        }
+
+        // Adds a node at the given index, moving the nodes from that index on by one.
+        Node * InsertAt(const size_t index)
+        {
+            std::map<size_t, Node*> shifted;
+            for (auto it = m_Sequence.begin(); it != m_Sequence.end(); it++)
             {
-                m_Sequence[it->first+1] = it->second;
+                shifted[it->first < index ? it->first : it->first + 1] = it->second;
             }
+            m_Sequence.swap(shifted);
 
             Node * pNode = new Node;
-            m_Sequence.insert({0, pNode});
+            m_Sequence[index] = pNode;
             return pNode;
         }
 
-- 
2.43.0


From cc5166e3a0263a24c2a33c4b09be6dd8b1b4b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 07/58] fix: Yaml: assigning a node from itself or from one of
 its children

The old content was released before it was copied.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index ae0f0b2..c147bc4 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2377,8 +2377,10 @@ void Node::Erase(const std::string& key)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const Node& node)
 {
-    NODE_IMP->Clear();
-    CopyNode(node, *this);
+    // The source may be this node or one of its children: copy before releasing the old content.
+    Node copy;
+    CopyNode(node, copy);
+    std::swap(m_pImp, copy.m_pImp);
     return *this;
 }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 91c7e5f..ad7fd0e 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1056,8 +1056,10 @@ namespace Yaml
 
     Node & Node::operator = (const Node & node)
     {
-        NODE_IMP->Clear();
-        CopyNode(node, *this);
+        // The source may be this node or one of its children: copy before releasing the old content.
+        Node copy;
+        CopyNode(node, copy);
+        std::swap(m_pImp, copy.m_pImp);
         return *this;
     }
 
-- 
2.43.0


From 2134a15d40b86a3996c74127d46c8ffa6944230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 08/58] fix: Yaml: iterating over a node without children
 terminates

Begin() of a scalar or empty node never compared equal to End().
---
 apps/multiphysics/src/input/Yaml.cpp                | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index c147bc4..befd774 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1753,7 +1753,7 @@ bool Iterator::operator ==(const Iterator& it)
         break;
     }
 
-    return false;
+    return true; // Iterators over a node without children are all at the end.
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -1990,7 +1990,7 @@ bool ConstIterator::operator ==(const ConstIterator& it)
         break;
     }
 
-    return false;
+    return true; // Iterators over a node without children are all at the end.
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index ad7fd0e..9f1cbac 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -768,7 +768,7 @@ namespace Yaml
             break;
         }
 
-        return false;
+        return true; // Iterators over a node without children are all at the end.
     }
 
     bool Iterator::operator != (const Iterator & it)
@@ -921,7 +921,7 @@ namespace Yaml
             break;
         }
 
-        return false;
+        return true; // Iterators over a node without children are all at the end.
     }
 
     bool ConstIterator::operator != (const ConstIterator & it)
-- 
2.43.0


From 40162c1c711ef3f64c26ec48db125c7ac1e634b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 09/58] fix: Yaml: As<T>() of empty text returns a
 value-initialised T

The extraction leaves the variable untouched when there is nothing to read,
so the call returned indeterminate data.
---
 apps/multiphysics/src/input/Yaml.hpp                    | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.hpp b/apps/multiphysics/src/input/Yaml.hpp
index 586657f..b5866d0 100644
--- a/apps/multiphysics/src/input/Yaml.hpp
+++ b/apps/multiphysics/src/input/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type{};
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
@@ -77,7 +77,7 @@ namespace Yaml
 
             static T Get(const std::string & data, const T & defaultValue)
             {
-                T type;
+                T type{};
                 std::stringstream ss(data);
                 ss >> type;
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
index 586657f..b5866d0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type{};
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
@@ -77,7 +77,7 @@ namespace Yaml
 
             static T Get(const std::string & data, const T & defaultValue)
             {
-                T type;
+                T type{};
                 std::stringstream ss(data);
                 ss >> type;
 
-- 
2.43.0


From e83490cec6f8070cdfb9fac7ee5316ff4a8d6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 10/58] fix: Yaml: accept an empty quoted text

The search for the closing quote started one character too late, so "" and
'' were rejected as invalid quotes.
---
 apps/multiphysics/src/input/Yaml.cpp                | 1 -
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index befd774..7834db9 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4163,7 +4163,6 @@ bool ValidateQuote(const std::string& input)
             return false;
         }
         token     = input[0];
-        searchPos = 1;
     }
 
     while (searchPos != std::string::npos && searchPos < input.size() - 1)
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 9f1cbac..edff79a 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2643,7 +2643,6 @@ namespace Yaml
                 return false;
             }
             token = input[0];
-            searchPos = 1;
         }
 
         while(searchPos != std::string::npos && searchPos < input.size() - 1)
-- 
2.43.0


From 132a8693ab94862720eca0326e2f24b7098e57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 11/58] fix: Yaml: serialize an empty text as ""

Written as nothing at all it was read back as a newline, as the content of
the next entry, or not at all.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 +++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 7834db9..850cb76 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3806,7 +3806,11 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
 
         // Empty scalar
         if (value.size() == 0) {
-            stream << "\n";
+            if (useLevel)
+            {
+                stream << std::string(level, ' ');
+            }
+            stream << "\"\"\n";
             break;
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index edff79a..39c51ab 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2402,7 +2402,11 @@ namespace Yaml
                 // Empty scalar
                 if(value.size() == 0)
                 {
-                    stream << "\n";
+                    if (useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
+                    stream << "\"\"\n";
                     break;
                 }
 
-- 
2.43.0


From 91adbef35a3551b9742c51d6ff27430419279dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 12/58] fix: Yaml: a key without a value holds an empty text

It held a newline, so that As<std::string>(default) never used the default.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 850cb76..b0fb7a6 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3278,6 +3278,12 @@ private:
                 data += " ";
             }
 
+            // A value that is missing altogether is an empty text, not a blank line.
+            if (data == "\n")
+            {
+                data.clear();
+            }
+
             if (ValidateQuote(data) == false) {
                 throw ParsingException(ExceptionMessage(g_ErrorInvalidQuote, *pFirstLine));
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 39c51ab..655a90d 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1928,6 +1928,12 @@ namespace Yaml
                     data += " ";
                 }
 
+                // A value that is missing altogether is an empty text, not a blank line.
+                if (data == "\n")
+                {
+                    data.clear();
+                }
+
                 if(ValidateQuote(data) == false)
                 {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidQuote, *pFirstLine));
-- 
2.43.0


From a1362cc3a7aa814ec432903deef0faeba6339c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 13/58] fix: Yaml: indent the indicator of a block text that
 starts on its own line

With MapScalarNewline the indicator was written in the first column, which
the parser does not accept for nested texts.
---
 apps/multiphysics/src/input/Yaml.cpp                | 8 ++++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index b0fb7a6..b3301ce 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3839,6 +3839,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
 
         // Literal
         if (lines.size() > 1) {
+            if (useLevel)
+            {
+                stream << std::string(level, ' ');
+            }
             stream << "|";
         }
         // Folded/plain
@@ -3860,6 +3864,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
                 break;
             }
             else{
+                if (useLevel)
+                {
+                    stream << std::string(level, ' ');
+                }
                 stream << ">";
             }
         }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 655a90d..2ec7fb3 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2437,6 +2437,10 @@ namespace Yaml
                 // Literal
                 if(lines.size() > 1)
                 {
+                    if (useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
                     stream << "|";
                 }
                 // Folded/plain
@@ -2463,6 +2467,10 @@ namespace Yaml
                     }
                     else
                     {
+                        if (useLevel)
+                        {
+                            stream << std::string(level, ' ');
+                        }
                         stream << ">";
                     }
                 }
-- 
2.43.0


From 495c7c10b1fac3580717d22e540353ea791d1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 14/58] fix: Yaml: a sequence entry without a value does not
 swallow the next entry

"- " followed by "- a" was read as a sequence nested in the first entry.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 +++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index b3301ce..bb4a71a 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3142,7 +3142,11 @@ private:
 
             // Handle value of map
             Node::eType valueType = (*it)->Type;
-            switch (valueType) {
+            if ((*it)->Offset <= pLine->Offset)
+            {
+                childNode = ""; // An entry without a value: the next line does not belong to it.
+            }
+            else switch (valueType) {
             case Node::SequenceType:
                 ParseSequence(childNode, it);
                 break;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 2ec7fb3..e7718b9 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1773,7 +1773,11 @@ namespace Yaml
 
                 // Handle value of map
                 Node::eType valueType = (*it)->Type;
-                switch(valueType)
+                if ((*it)->Offset <= pLine->Offset)
+                {
+                    childNode = ""; // An entry without a value: the next line does not belong to it.
+                }
+                else switch(valueType)
                 {
                 case Node::SequenceType:
                     ParseSequence(childNode, it);
-- 
2.43.0


From 90e2155facf7a67504ae1520076c65ddca6b6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 15/58] fix: Yaml-Serializable: read [] as an empty list and
 ignore blanks around bracket list items

---
 .../include/yaml-serializable-containers.h                  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3f0cd3f..848c91f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -81,11 +81,15 @@ namespace Yaml {
                 return !std::isspace(ch) && ch != ']';
             }).base(), s.end());
             std::vector<std::string> result;
+            if (s.empty()) return result;
             std::stringstream ss(s);
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
-                result.push_back(word);
+                // Blanks around the delimeter are not part of the item.
+                size_t first = word.find_first_not_of(" \t");
+                size_t last  = word.find_last_not_of(" \t");
+                result.push_back(first == std::string::npos ? "" : word.substr(first, last - first + 1));
             }
             return result;
         }
-- 
2.43.0


From 6b0f85b9b9f11a745e585f75609be45deae8b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 16/58] fix: Yaml-Serializable: an empty container can be read
 back

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 848c91f..ff3fac4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -112,6 +112,9 @@ namespace Yaml {
             Yaml::Node sequence_node;
             if (node.IsScalar()) {
                 auto s = node.As<std::string>();
+                // An empty list is written as a key without a value.
+                if (s.empty())
+                    return sequence_node;
                 if (!looks_like_a_list(s))
                     throw Yaml::ConfigurationException("Failed to parse string: `" + s + "`. Expected a list.");
                 for (auto token : tokenizer(node.As<std::string>(), ','))
-- 
2.43.0


From c1fb6b55850fd0fd23be1aff6f628409305b19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 17/58] fix: Yaml-Serializable: a null pointer is serialized as
 an absent value

---
 .../include/yaml-serializable-containers.h                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index ff3fac4..77787ae 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -240,6 +240,10 @@ namespace Yaml {
             }
 
             static void serialize(const std::shared_ptr<T>& v, Yaml::Node& node) {
+                if (!v) {
+                    node.Clear();
+                    return;
+                }
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
@@ -267,6 +271,10 @@ namespace Yaml {
             }
             
             static void serialize(const std::unique_ptr<T>& v, Yaml::Node& node) {
+                if (!v) {
+                    node.Clear();
+                    return;
+                }
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
-- 
2.43.0


From cdd8dbdd8139449f9d5358792dda98e82db6fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 18/58] fix: Yaml-Serializable: strict loading validates the
 node as it was read

---
 .../src/Yaml-Serializable/include/yaml-serializable.h         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index ae8cb36..118c6b7 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -77,7 +77,9 @@ namespace Yaml {
 
         template<typename... Types>
         inline void strict_validation(Node& node, Types&... args) {
-            from_raw(node, args...);
+            // Loading may convert nodes, validate against the original.
+            Node loaded(node);
+            from_raw(loaded, args...);
 
             Node re_serialized;
             to(re_serialized, args...);
-- 
2.43.0


From c3054d957fbefc6997a5c2a7e084fa3322d599e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:41 +0000
Subject: [PATCH 19/58] fix: Yaml-Serializable: objects are value-initialised
 before they are filled from text

---
 .../src/Yaml-Serializable/include/type-discrimination.h   | 2 +-
 .../include/yaml-serializable-containers.h                | 8 ++++----
 .../src/Yaml-Serializable/include/yaml-serializable.h     | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
index 59cc75a..e43d28e 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
@@ -252,7 +252,7 @@ namespace Yaml {
             DerivedSerializer() = default;
 
             std::unique_ptr<Base> deserialize(Node& node, bool raw) {
-                T v;
+                T v{};
                 Yaml::deserialize(v, node, raw);
                 return std::make_unique<T>(v);
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 77787ae..8b2e4bc 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -136,7 +136,7 @@ namespace Yaml {
         template<typename T, typename F>
         void deserialize_to_iterable(Node& node, bool raw, F inserter) {
             for(size_t i = 0; i < node.Size(); i++) {
-                T item;
+                T item{};
                 deserialize_from_indexed_item(item, node, raw, i);
                 inserter(item);
             }
@@ -188,7 +188,7 @@ namespace Yaml {
         struct Impl<std::optional<T>> {
             static void deserialize(std::optional<T>& v, Yaml::Node& node, bool raw) {
                 if (!node.IsNone()) {
-                    T inner_value;
+                    T inner_value{};
                     Yaml::deserialize(inner_value, node, raw);
                     v = inner_value;
                 } 
@@ -233,7 +233,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v{};
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_shared<T>(inner_v);
                 }
@@ -264,7 +264,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v{};
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_unique<T>(inner_v);
                 }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index 118c6b7..af9e2b2 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -147,7 +147,7 @@ namespace Yaml {
     inline T from_string(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v{};
         from(node, v);
         return v;
     }
@@ -162,7 +162,7 @@ namespace Yaml {
     inline T from_string_strict(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v{};
         from_strict(node, v);
         return v;
     }
@@ -210,7 +210,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v{};
         from(node, v);
         return v;
     }
@@ -228,7 +228,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v{};
         from_strict(node, v);
         return v;
     }
-- 
2.43.0


From c3de9289e4dbabf15d23844d56ff6ecdf65a9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 20/58] fix: Yaml: accept a sequence entry without a value at
 the end of the document

---
 apps/multiphysics/src/input/Yaml.cpp                | 3 ++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index bb4a71a..ebea862 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3137,7 +3137,8 @@ private:
             // Move to next line, error check.
             ++it;
             if (it == m_Lines.end()) {
-                throw InternalException(ExceptionMessage(g_ErrorUnexpectedDocumentEnd, *pLine));
+                childNode = ""; // An entry without a value ends the document.
+                break;
             }
 
             // Handle value of map
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index e7718b9..63753a9 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1768,7 +1768,8 @@ namespace Yaml
                 ++it;
                 if(it == m_Lines.end())
                 {
-                    throw InternalException(ExceptionMessage(g_ErrorUnexpectedDocumentEnd, *pLine));
+                    childNode = ""; // An entry without a value ends the document.
+                    break;
                 }
 
                 // Handle value of map
-- 
2.43.0


From 4f7f7e4c2ca0f73c323f6f94365caf0efce40c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 21/58] fix: Yaml: a document of a single sequence entry
 without a value is accepted

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index ebea862..4f452f3 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2911,7 +2911,7 @@ private:
 
         // Set next line of all lines.
         if (m_Lines.size()) {
-            if (m_Lines.back()->Type != Node::ScalarType) {
+            if (m_Lines.back()->Type == Node::MapType) {
                 throw ParsingException(ExceptionMessage(g_ErrorUnexpectedDocumentEnd, *m_Lines.back()));
             }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 63753a9..0208e00 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1515,7 +1515,7 @@ namespace Yaml
             // Set next line of all lines.
             if (m_Lines.size())
             {
-                if (m_Lines.back()->Type != Node::ScalarType)
+                if (m_Lines.back()->Type == Node::MapType)
                 {
                     throw ParsingException(ExceptionMessage(g_ErrorUnexpectedDocumentEnd, *m_Lines.back()));
                 }
-- 
2.43.0


From e4081964185dd0309adb1c81d28ca01de6783c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 22/58] fix: matrix inversion exchanges rows at a zero pivot
 and reports singular matrices

---
 apps/micromechanics/EVPFFT/src/math_functions.h    | 14 ++++++++++++--
 .../LS-EVPFFT-J2/src/math_functions.h              | 14 ++++++++++++--
 apps/micromechanics/LS-EVPFFT/src/math_functions.h | 14 ++++++++++++--
 .../LSNP-EVPFFT/src/math_functions.h               | 14 ++++++++++++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/math_functions.h b/apps/micromechanics/EVPFFT/src/math_functions.h
index 3678015..dcb4dc5 100644
--- a/apps/micromechanics/EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/EVPFFT/src/math_functions.h
@@ -47,8 +47,18 @@ int invert_matrix(double *matrix)
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
         if (*(matrix + i * n + i) == 0) {
-            //printf("Error: Matrix is not invertible.\n");
-            return error_flag;
+            // bring up a lower row that can serve as pivot row
+            int pivot_row = i + 1;
+            while (pivot_row < n && *(matrix + pivot_row * n + i) == 0) {
+                pivot_row++;
+            }
+            if (pivot_row == n) {
+                //printf("Error: Matrix is not invertible.\n");
+                error_flag = 1;
+                return error_flag;
+            }
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
         }
 
         double pivot = *(matrix + i * n + i);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
index 3eb51cc..2a8750e 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/math_functions.h
@@ -47,8 +47,18 @@ int invert_matrix(double *matrix)
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
         if (*(matrix + i * n + i) == 0) {
-            //printf("Error: Matrix is not invertible.\n");
-            return error_flag;
+            // bring up a lower row that can serve as pivot row
+            int pivot_row = i + 1;
+            while (pivot_row < n && *(matrix + pivot_row * n + i) == 0) {
+                pivot_row++;
+            }
+            if (pivot_row == n) {
+                //printf("Error: Matrix is not invertible.\n");
+                error_flag = 1;
+                return error_flag;
+            }
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
         }
 
         double pivot = *(matrix + i * n + i);
diff --git a/apps/micromechanics/LS-EVPFFT/src/math_functions.h b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
index 3eb51cc..2a8750e 100644
--- a/apps/micromechanics/LS-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/math_functions.h
@@ -47,8 +47,18 @@ int invert_matrix(double *matrix)
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
         if (*(matrix + i * n + i) == 0) {
-            //printf("Error: Matrix is not invertible.\n");
-            return error_flag;
+            // bring up a lower row that can serve as pivot row
+            int pivot_row = i + 1;
+            while (pivot_row < n && *(matrix + pivot_row * n + i) == 0) {
+                pivot_row++;
+            }
+            if (pivot_row == n) {
+                //printf("Error: Matrix is not invertible.\n");
+                error_flag = 1;
+                return error_flag;
+            }
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
         }
 
         double pivot = *(matrix + i * n + i);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
index 3eb51cc..2a8750e 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/math_functions.h
@@ -47,8 +47,18 @@ int invert_matrix(double *matrix)
     // Perform Gauss-Jordan elimination
     for (int i = 0; i < n; i++) {
         if (*(matrix + i * n + i) == 0) {
-            //printf("Error: Matrix is not invertible.\n");
-            return error_flag;
+            // bring up a lower row that can serve as pivot row
+            int pivot_row = i + 1;
+            while (pivot_row < n && *(matrix + pivot_row * n + i) == 0) {
+                pivot_row++;
+            }
+            if (pivot_row == n) {
+                //printf("Error: Matrix is not invertible.\n");
+                error_flag = 1;
+                return error_flag;
+            }
+            swap_rows(matrix, i, pivot_row, n);
+            swap_rows(identity, i, pivot_row, n);
         }
 
         double pivot = *(matrix + i * n + i);
-- 
2.43.0


From 4684bb4deba948279518fe845abae96867f30e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 23/58] fix: the skew Voigt expansion keeps the sign of all
 three normal components

---
 apps/micromechanics/EVPFFT/src/voigt.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/voigt.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/voigt.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/voigt.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/voigt.cpp b/apps/micromechanics/EVPFFT/src/voigt.cpp
index 027dd53..33c3288 100644
--- a/apps/micromechanics/EVPFFT/src/voigt.cpp
+++ b/apps/micromechanics/EVPFFT/src/voigt.cpp
@@ -76,7 +76,7 @@ void voigt(real_t *c2_voigt_, real_t *c4_voigt_, int iopt)
       for (int j = 1; j <= 6; j++) {
         j1 = ijv(j,1);
         j2 = ijv(j,2);
-        if (i < 3) {
+        if (i <= 3) {
           c4_voigt(i1,i2,j1,j2) = c2_voigt(i,j);
           c4_voigt(i2,i1,j1,j2) = c2_voigt(i,j);
           c4_voigt(i1,i2,j2,j1) = c2_voigt(i,j);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/voigt.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/voigt.cpp
index 027dd53..33c3288 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/voigt.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/voigt.cpp
@@ -76,7 +76,7 @@ void voigt(real_t *c2_voigt_, real_t *c4_voigt_, int iopt)
       for (int j = 1; j <= 6; j++) {
         j1 = ijv(j,1);
         j2 = ijv(j,2);
-        if (i < 3) {
+        if (i <= 3) {
           c4_voigt(i1,i2,j1,j2) = c2_voigt(i,j);
           c4_voigt(i2,i1,j1,j2) = c2_voigt(i,j);
           c4_voigt(i1,i2,j2,j1) = c2_voigt(i,j);
diff --git a/apps/micromechanics/LS-EVPFFT/src/voigt.cpp b/apps/micromechanics/LS-EVPFFT/src/voigt.cpp
index 027dd53..33c3288 100644
--- a/apps/micromechanics/LS-EVPFFT/src/voigt.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/voigt.cpp
@@ -76,7 +76,7 @@ void voigt(real_t *c2_voigt_, real_t *c4_voigt_, int iopt)
       for (int j = 1; j <= 6; j++) {
         j1 = ijv(j,1);
         j2 = ijv(j,2);
-        if (i < 3) {
+        if (i <= 3) {
           c4_voigt(i1,i2,j1,j2) = c2_voigt(i,j);
           c4_voigt(i2,i1,j1,j2) = c2_voigt(i,j);
           c4_voigt(i1,i2,j2,j1) = c2_voigt(i,j);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/voigt.cpp b/apps/micromechanics/LSNP-EVPFFT/src/voigt.cpp
index 027dd53..33c3288 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/voigt.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/voigt.cpp
@@ -76,7 +76,7 @@ void voigt(real_t *c2_voigt_, real_t *c4_voigt_, int iopt)
       for (int j = 1; j <= 6; j++) {
         j1 = ijv(j,1);
         j2 = ijv(j,2);
-        if (i < 3) {
+        if (i <= 3) {
           c4_voigt(i1,i2,j1,j2) = c2_voigt(i,j);
           c4_voigt(i2,i1,j1,j2) = c2_voigt(i,j);
           c4_voigt(i1,i2,j2,j1) = c2_voigt(i,j);
-- 
2.43.0


From 6242361ca4f3386f51d79d9fd6a4d36bcd6a86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 24/58] fix: wall, piston and time-varying velocity conditions
 act on the velocity component along their direction

---
 .../boundary_conditions/velocity/piston_velocity_bc.hpp    | 7 ++++++-
 .../boundary_conditions/velocity/reflected_velocity_bc.hpp | 4 +++-
 .../velocity/time_varying_velocity_bc.hpp                  | 7 ++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
index 54b0e39..f9e5673 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
@@ -116,10 +116,15 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        double vel_dot = 0.0; // velocity in the specified direction
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_dot += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
             //  direction normal = vel_bc_global_vars(bdy_set,dim)/mag
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+            node_vel(bdy_node_gid, dim) -= vel_dot * (vel_bc_global_vars(bdy_set,dim)/mag);
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel * (vel_bc_global_vars(bdy_set,dim)/mag);
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
index 5657d8a..d9da8f2 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
@@ -71,13 +71,15 @@ static void velocity(const swage::Mesh& mesh,
     const size_t bdy_set)
 {
     double mag = 0.0;
+    double vel_dot = 0.0; // velocity in the specified direction
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
         mag += vel_bc_global_vars(bdy_set,dim)*vel_bc_global_vars(bdy_set,dim);
+        vel_dot += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim);
     } // will make sure it's a unit vector
 
     // Remove the velocity in the specified direction
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
-        node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        node_vel(bdy_node_gid, dim) -= vel_dot*vel_bc_global_vars(bdy_set,dim)/mag;
     }
 
     return;
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
index 50dd6e1..cf37428 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
@@ -114,9 +114,14 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        double vel_dot = 0.0; // velocity in the specified direction
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_dot += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+            node_vel(bdy_node_gid, dim) -= vel_dot*vel_bc_global_vars(bdy_set,dim)/mag;
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel*vel_bc_global_vars(bdy_set,dim)/mag;
-- 
2.43.0


From e6e96786a742ea694f65ad7f4bd372e7e5d8296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 25/58] fix: an eroded material adds no corner force instead of
 wiping those of its element

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp    | 1 -
 apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
index 79391ed..e66c77f 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
@@ -210,7 +210,6 @@ void SGH3D::get_force(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { // material(mat_id).blank_mat_id)
                 for (size_t dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
index 55583c2..acbf973 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
@@ -217,7 +217,6 @@ void SGHRZ::get_force_rz(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { 
                 for (int dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
-- 
2.43.0


From ae3a6b6ceed81e4c31b6719764423c3afbe5c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 26/58] fix: the RZ viscosity limiter uses the magnitude of the
 vorticity, as in 3D

---
 .../src/material_models/artificial_viscosity/mars.hpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
index 786812d..c7b5fa2 100644
--- a/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
+++ b/apps/multiphysics/src/material_models/artificial_viscosity/mars.hpp
@@ -712,7 +712,7 @@ namespace MARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
         
     // ---- Multidirectional Approximate Riemann solver (MARS) ----
@@ -986,7 +986,7 @@ namespace DirMARSRZDissipationModel {
     double curl;
     curl = GaussPoints_vel_grad(elem_gid, 1, 0) - GaussPoints_vel_grad(elem_gid, 0, 1);  // dv/dx - du/dy
 
-    double mag_curl = curl;
+    double mag_curl = fabs(curl);
 
 
     // --- Calculate edge normals of a corner ---
-- 
2.43.0


From d4c6fb075abe7458079f62a71a903277e81bc265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 27/58] fix: RZ nodes between the axis and the tolerance get a
 mass, also at exactly the tolerance

---
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 21e4139..b026904 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -677,7 +677,7 @@ void calc_node_areal_mass_rz(const swage::Mesh& mesh,
     FOR_ALL(node_bdy_gid, 0, mesh.num_bdy_nodes, {
         size_t node_gid = mesh.bdy_nodes(node_bdy_gid);
 
-        if (node_coords(node_gid, 1) < tiny) {
+        if (node_coords(node_gid, 1) <= tiny) {
             // node is on the axis
 
             for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_node(node_gid); node_lid++) {
-- 
2.43.0


From 55308074d46e0c23a1988b410dc015fbc9dcf1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 28/58] fix: RZ nodal masses count each material by its volume
 fractions, as the material masses do

---
 .../Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp  |  2 ++
 .../src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp   | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
index ac397ab..fc91666 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/include/sgh_solver_rz.hpp
@@ -396,6 +396,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
                          const DCArrayKokkos<double>& node_mass,
                          const DCArrayKokkos<double>& corner_mass,
                          const DRaggedRightArrayKokkos<double>& MaterialPoints_den,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
                          const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
                          const size_t num_mat_elems,
                          const size_t mat_id);
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
index 0fe78da..c6b1830 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_setup_rz.cpp
@@ -124,6 +124,8 @@ void SGHRZ::setup(SimulationParameters_t& SimulationParamaters,
                             State.node.mass,
                             State.corner.mass,
                             State.MaterialPoints.den,
+                            State.MaterialPoints.volfrac,
+                            State.MaterialPoints.geo_volfrac,
                             State.MaterialToMeshMaps.elem_in_mat_elem,
                             State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                             mat_id);
@@ -148,7 +150,9 @@ void SGHRZ::setup(SimulationParameters_t& SimulationParamaters,
 /// \param node_coords are the nodal coordinates of the mesh
 /// \param node_mass is mass of the node
 /// \param corner_mass is corner mass
-/// \param MaterialPoints_mass is the mass at the material point for mat_id
+/// \param MaterialPoints_den is the density at the material point for mat_id
+/// \param MaterialPoints_volfrac is the volume fraction of the material in its element
+/// \param MaterialPoints_geo_volfrac is the volume fraction of the part in its element
 /// \param num_mat_elems is the number of material elements for mat_id
 ///
 /////////////////////////////////////////////////////////////////////////////
@@ -158,6 +162,8 @@ void calc_corner_mass_rz(const Material_t& Materials,
                          const DCArrayKokkos<double>& node_mass,
                          const DCArrayKokkos<double>& corner_mass,
                          const DRaggedRightArrayKokkos<double>& MaterialPoints_den,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
+                         const DRaggedRightArrayKokkos<double>& MaterialPoints_geo_volfrac,
                          const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
                          const size_t num_mat_elems,
                          const size_t mat_id)
@@ -179,7 +185,9 @@ void calc_corner_mass_rz(const Material_t& Materials,
         // loop over the corners of the element and calculate the mass
         for (size_t corner_lid = 0; corner_lid < 4; corner_lid++) {
             size_t corner_gid = mesh.corners_in_elem(elem_gid, corner_lid);
-            corner_mass(corner_gid) += corner_areas(corner_lid) * MaterialPoints_den(mat_id, mat_elem_sid); // node radius is added later
+            corner_mass(corner_gid) += corner_areas(corner_lid) * MaterialPoints_den(mat_id, mat_elem_sid)*
+                                       MaterialPoints_volfrac(mat_id, mat_elem_sid)*
+                                       MaterialPoints_geo_volfrac(mat_id, mat_elem_sid); // node radius is added later
         } // end for over corners
     });
 
-- 
2.43.0


From af956580537ecc3b5917f91fed3595ce3670239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 29/58] fix: a coupled or state based material's density counts
 its volume fractions

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp | 3 ++-
 .../src/Solvers/SGH_solver_rz/src/properties_rz.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp
index 5eb5a1d..7187230 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/properties.cpp
@@ -158,7 +158,8 @@ void SGH3D::update_state(
             size_t gauss_gid = elem_gid;
 
             // --- Density ---
-            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) / (GaussPoints_vol(gauss_gid) + 1.0e-20);
+            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) /
+                  (GaussPoints_vol(gauss_gid)*MaterialPoints_volfrac(mat_id, mat_point_sid)*MaterialPoints_geo_volfrac(mat_id, mat_point_sid) + 1.0e-20);
         }); // end parallel for over mat elem lid
         Kokkos::fence();
     } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp
index 703c897..4c43966 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/properties_rz.cpp
@@ -191,7 +191,8 @@ void SGHRZ::update_state_rz(
 
 
             // --- Density ---
-            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) / (GaussPoints_vol(gauss_gid) + 1.0e-20);
+            MaterialPoints_den(mat_id, mat_point_sid) = MaterialPoints_mass(mat_id, mat_point_sid) /
+                  (GaussPoints_vol(gauss_gid)*MaterialPoints_volfrac(mat_id, mat_point_sid)*MaterialPoints_geo_volfrac(mat_id, mat_point_sid) + 1.0e-20);
 
 
             // --- call strength model ---
-- 
2.43.0


From 8151640dff95835247fdb2411a1486687d91f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 30/58] fix: the thermal solver stores temperature gradients by
 material point, not by element

---
 .../src/Solvers/SGTM_solver_3D/src/heat_flux.cpp            | 6 +++---
 apps/multiphysics/src/common/include/mesh_io.hpp            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index cb896b2..e779417 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -153,9 +153,9 @@ void SGTM3D::get_heat_flux(
         }
 
         // ---- Save the temperature gradient to the material point for writing out ---- //
-        MaterialPoints_temp_grad(mat_id, elem_gid, 0) = temp_grad(0);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 1) = temp_grad(1);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 2) = temp_grad(2);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 0) = temp_grad(0);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 1) = temp_grad(1);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 2) = temp_grad(2);
 
         // ---- Calculate the heat flux at the material point ---- //
         double conductivity = MaterialPoints_conductivity(mat_id, mat_point_sid); // NOTE: Consider moving this to properties and evaluate instead of save
diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a6d9194..02230cc 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -3441,9 +3441,9 @@ public:
                 elem_fields(elem_gid, 7) = (double)mat_id;
                 // 8 is the e_switch
                 elem_fields(elem_gid, 9) = (double)State.MaterialPoints.eroded.host(mat_id, mat_elem_sid);
-                elem_fields(elem_gid, 10) = (double)State.MaterialPoints.temp_grad.host(mat_id, elem_gid,0);
-                elem_fields(elem_gid, 11) = (double)State.MaterialPoints.temp_grad.host(mat_id, elem_gid,1);
-                elem_fields(elem_gid, 12) = (double)State.MaterialPoints.temp_grad.host(mat_id, elem_gid,2);
+                elem_fields(elem_gid, 10) = (double)State.MaterialPoints.temp_grad.host(mat_id, mat_elem_sid,0);
+                elem_fields(elem_gid, 11) = (double)State.MaterialPoints.temp_grad.host(mat_id, mat_elem_sid,1);
+                elem_fields(elem_gid, 12) = (double)State.MaterialPoints.temp_grad.host(mat_id, mat_elem_sid,2);
             } // end for mat elems storage
         } // end parallel loop over materials
 
-- 
2.43.0


From 822c2e4a4bf76518c269b5091b8e49951931e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 31/58] fix: a node's heat capacity uses the specific heat of
 its own materials

---
 .../SGTM_solver_3D/include/sgtm_solver_3D.hpp        |  3 +++
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp  |  3 +++
 .../Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp  | 12 +++++++++++-
 apps/multiphysics/src/common/src/region_fill.cpp     |  1 +
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 66a5bec..a330065 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -283,6 +283,9 @@ public:
             const DCArrayKokkos<double>& node_mass,
             const DCArrayKokkos<double>& node_q_transfer,
             const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+            const DCArrayKokkos<size_t>& num_mats_in_elem,
+            const DCArrayKokkos<size_t>& mats_in_elem,
+            const DCArrayKokkos<size_t>& mat_elems_in_elem,
             const double rk_alpha,
             const double dt) const;
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f86663e..1cd967d 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -327,6 +327,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.mass,
                 State.node.q_transfer,
                 State.MaterialPoints.specific_heat, // Note: Need to make this a node field, and calculate in the material loop
+                State.MeshtoMaterialMaps.num_mats_in_elem,
+                State.MeshtoMaterialMaps.mats_in_elem,
+                State.MeshtoMaterialMaps.mat_elems_in_elem,
                 rk_alpha,
                 dt);
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
index 7a1a626..9202944 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
@@ -46,6 +46,10 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 /// \param The temperature at the nodes
 /// \param The mass at the nodes
 /// \param The heat flux at the nodes
+/// \param The specific heat of the material points
+/// \param The number of materials in each element
+/// \param The materials in each element
+/// \param The material storage index of each material in each element
 /// \param The RK integration alpha value
 /// \param Time step size
 ///
@@ -58,6 +62,9 @@ void SGTM3D::update_temperature(
     const DCArrayKokkos<double>& node_mass,
     const DCArrayKokkos<double>& node_q_transfer,
     const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+    const DCArrayKokkos<size_t>& num_mats_in_elem,
+    const DCArrayKokkos<size_t>& mats_in_elem,
+    const DCArrayKokkos<size_t>& mat_elems_in_elem,
     const double rk_alpha,
     const double dt) const
 {
@@ -77,7 +84,10 @@ void SGTM3D::update_temperature(
         double Cp = 0.0;
         for(int elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++){ // NOTE: num_corners_in_node = num_elems_in_node
             size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
-            Cp += mat_pt_specific_heat(0,elem_gid)/mesh.num_corners_in_node(node_gid);
+            for(size_t mat_lid = 0; mat_lid < num_mats_in_elem(elem_gid); mat_lid++){
+                Cp += mat_pt_specific_heat(mats_in_elem(elem_gid, mat_lid), mat_elems_in_elem(elem_gid, mat_lid)) /
+                      (num_mats_in_elem(elem_gid) * mesh.num_corners_in_node(node_gid));
+            }
         }
 
         // std::cout << "Cp*mass = " << Cp * node_mass(node_gid) << std::endl;
diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 19a27d5..2834c80 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -848,6 +848,7 @@ void material_state_setup(SimulationParameters_t& SimulationParamaters,
         } // end loop over materials in this element
     } // end serial for loop over all elements
     State.MaterialToMeshMaps.elem_in_mat_elem.update_device();
+    State.MeshtoMaterialMaps.mat_elems_in_elem.update_device();
 
 
     // copy the state to the device
-- 
2.43.0


From cc8d08936cb6b63a403079917af425880ee10622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 32/58] fix: the level set gradient points towards larger
 values of the level set

---
 .../src/Solvers/level_set_solver/src/solver_functions.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 23a4078..7bf4c2d 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -89,7 +89,7 @@ void LevelSet::nodal_gradient(
         }
 
         if(mesh.num_dims==3){
-            // get the B matrix which are the inward corner area normals or the elem
+            // get the B matrix which are the OUTWARD corner area normals of the elem
             geometry::get_bmatrix(area_normal,
                                   elem_gid,
                                   node_coords,
@@ -109,7 +109,7 @@ void LevelSet::nodal_gradient(
 
             // save the corner normal (inward pointing from the element)
             for (size_t dim = 0; dim < mesh.num_dims; dim++) {
-                corner_normal(corner_gid, dim) = area_normal(corner_lid, dim);
+                corner_normal(corner_gid, dim) = -area_normal(corner_lid, dim);
             } // end loop over dimension
 
             // save the corner volume
-- 
2.43.0


From da936800b0b428a5534ef9c29530a6a191243b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 33/58] fix: a partial fill replaces its own material in an
 element, not the one of another fill

---
 apps/multiphysics/src/common/src/region_fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 2834c80..e930f1f 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1436,7 +1436,7 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     for (size_t a_fill=0; a_fill < num_fills_saved_in_elem(elem_gid); a_fill++){
 
         // get the mat_id in this fill
-        size_t a_mat_id = region_fills(a_fill).material_id;
+        size_t a_mat_id = region_fills(elem_fill_ids(elem_gid, a_fill)).material_id;
         if(mat_id == a_mat_id){
             // overwrite the existing material lid with new fill instructions
             fill_storage_lid = a_fill;  
-- 
2.43.0


From f2b2775ccfd0cba96f30e627d8821b71d6863d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 34/58] fix: regions may give specific and extensive internal
 energies side by side

---
 apps/multiphysics/src/common/include/state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/state.hpp b/apps/multiphysics/src/common/include/state.hpp
index e2d8e33..3ab7c63 100644
--- a/apps/multiphysics/src/common/include/state.hpp
+++ b/apps/multiphysics/src/common/include/state.hpp
@@ -123,7 +123,7 @@ struct fillGaussState_t
                     }
                     break;
                 case fill_gauss_state::internal_energy:
-                    if (sie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
+                    if (ie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
                     if (use_sie.size() == 0){ 
                         this->use_sie = DCArrayKokkos<bool>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_use_sie");
                         use_sie.set_values(false);
-- 
2.43.0


From 5a091b98da1350f5af82acb10e97ef408237ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 35/58] fix: spherical initial fields in 2D do not read a third
 coordinate

---
 apps/multiphysics/src/common/src/region_fill.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index e930f1f..aacaaa2 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1762,13 +1762,13 @@ void paint_scalar(const DCArrayKokkos<double>& field_scalar,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
@@ -1901,13 +1901,13 @@ void paint_vector(const DCArrayKokkos<double>& vector_field,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
                     radius_val = sqrt(radius_val);
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         if (radius_val > 1.0e-14) {
                             dir[dim] /= (radius_val);
                         }
-- 
2.43.0


From 5d534c9bcbee8a24b02b737268db7557e657166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 36/58] fix: a radial level set is zero at its radius, as the
 spherical one is

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index aacaaa2..ce63d4f 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1620,7 +1620,7 @@ void paint_multi_scalar(const DCArrayKokkos<double>& field_scalar,
         case init_conds::radialScalar:
             {
                  // Setting up radial
-                //   vol = slope*(dx^2 + dy^2)- value^2
+                //   val_out = slope*sqrt( dx^2 + dy^2 ) - value
                 double delta = 0.0;
                 double radius_val = 0.0;
 
@@ -1629,7 +1629,7 @@ void paint_multi_scalar(const DCArrayKokkos<double>& field_scalar,
                     radius_val += delta*delta;
                 } // end for
                 radius_val = slope*sqrt(radius_val);
-                radius_val -= scalar*scalar; 
+                radius_val -= scalar; 
 
                 field_scalar(mesh_gid,bin) = radius_val;
 
-- 
2.43.0


From 9f05852e06f66d4844456ba397d7572dcbd79566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 37/58] fix: radial volume fractions are measured from their
 origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index ce63d4f..245048d 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1511,7 +1511,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 2; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
@@ -1532,7 +1532,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 3; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
-- 
2.43.0


From 9c4f83041ce1a95eac0d81a9aa3439988f1d13a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 38/58] fix: a voxel file does not fill elements just below its
 origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 245048d..e1ae60a 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1343,9 +1343,9 @@ size_t fill_geometric_region(const swage::Mesh& mesh,
                 double j0_real = (mesh_coords(1) - orig_y - region_fills(f_id).origin[1]) / (voxel_dy);
                 double k0_real = (mesh_coords(2) - orig_z - region_fills(f_id).origin[2]) / (voxel_dz);
 
-                int i0 = (int)i0_real;
-                int j0 = (int)j0_real;
-                int k0 = (int)k0_real;
+                int i0 = (int)floor(i0_real);
+                int j0 = (int)floor(j0_real);
+                int k0 = (int)floor(k0_real);
 
                 // look for the closest element in the voxel mesh
                 int elem_id0 = get_id_device(i0, j0, k0, voxel_num_i, voxel_num_j);
-- 
2.43.0


From 56074b679661afa8be45d687bd3b08e240ab25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 39/58] fix: polar meshes are refused for a negative radius,
 not for a negative axial position

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 02230cc..fd2dc6d 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -1517,7 +1517,8 @@ public:
                 node.coords.host(node_gid, 0) = origin[0] + r_i * cos(theta_j);
                 node.coords.host(node_gid, 1) = origin[1] + r_i * sin(theta_j);
 
-                if(node.coords.host(node_gid, 0) < 0.0){
+                // the radius is the second coordinate of an RZ mesh; allow for roundoff on the axis
+                if(node.coords.host(node_gid, 1) < -1.0e-12*fabs(outer_radius)){
                     throw std::runtime_error("**** NODE RADIUS FOR RZ MESH MUST BE POSITIVE ****");
                 }
 
-- 
2.43.0


From 9643cc077a4a3f0d803e230b14a209506344f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 40/58] fix: the node coordinate output holds every node's
 third coordinate

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index fd2dc6d..c5bdb48 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -4093,7 +4093,7 @@ public:
                             node_vector_fields(node_coord_id, node_gid, 2) = 0.0;
                         }
                         else{
-                            node_vector_fields(node_coord_id, node_coord_id, 2) = Node.coords(node_gid, 2);
+                            node_vector_fields(node_coord_id, node_gid, 2) = Node.coords(node_gid, 2);
                         } // end if
 
                     }); // end parallel for
-- 
2.43.0


From 432fa0dddc365527d70d4bba1dc36bf8527b98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 41/58] fix: material outputs hold conductivity and specific
 heat per material element

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index c5bdb48..ce21b08 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -3998,22 +3998,16 @@ public:
                 case material_pt_state::thermal_conductivity:
                     FOR_ALL(mat_elem_sid, 0, num_mat_elems, {
 
-                        // get elem gid
-                        size_t elem_gid = elem_in_mat_elem(mat_id, mat_elem_sid);
-
                         // field
-                        mat_elem_scalar_fields(mat_conductivity_id, elem_gid) += MaterialPoints.conductivity(mat_id, mat_elem_sid);
+                        mat_elem_scalar_fields(mat_conductivity_id, mat_elem_sid) = MaterialPoints.conductivity(mat_id, mat_elem_sid);
                     });
                     break;
 
                 case material_pt_state::specific_heat:
                     FOR_ALL(mat_elem_sid, 0, num_mat_elems, {
 
-                        // get elem gid
-                        size_t elem_gid = elem_in_mat_elem(mat_id, mat_elem_sid);
-
                         // field
-                        mat_elem_scalar_fields(mat_specific_heat_id, elem_gid) += MaterialPoints.specific_heat(mat_id, mat_elem_sid);
+                        mat_elem_scalar_fields(mat_specific_heat_id, mat_elem_sid) = MaterialPoints.specific_heat(mat_id, mat_elem_sid);
                     });
                     break;
 
-- 
2.43.0


From 200e56f6ba7faae88fafc7cf1a18add959300535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 42/58] fix: the multiblock output names the files of the
 materials that were written

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index ce21b08..6e43f8b 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2708,7 +2708,7 @@ public:
 
 
             // note: the file path and folder was created in the elem and node outputs
-            size_t num_mat_files_written = 0;
+            std::vector<size_t> mat_ids_written; // the materials with a file
             if(num_mat_pt_scalar_vars > 0 || num_mat_pt_tensor_vars >0){
 
                 for (int mat_id = 0; mat_id < num_mats; mat_id++) {
@@ -2798,7 +2798,7 @@ public:
                                   solver_id);
 
 
-                        num_mat_files_written++;
+                        mat_ids_written.push_back(mat_id);
 
                     } // end for mat_id
 
@@ -2839,7 +2839,7 @@ public:
                       mat_fields_name,
                       time_value,
                       graphics_id,
-                      num_mat_files_written,
+                      mat_ids_written,
                       write_mesh_state,
                       write_mat_pt_state,
                       solver_id);
@@ -4494,7 +4494,7 @@ public:
                    const  std::string& mat_part_name,
                    double time_value,
                    int graphics_id,
-                   int num_mats,
+                   const std::vector<size_t>& mat_ids,
                    bool write_mesh_state,
                    bool write_mat_pt_state,
                    const size_t solver_id)
@@ -4542,10 +4542,11 @@ public:
             // note: the block_id was incremented if an element average field output was made
             if (write_mat_pt_state){
                 fprintf(out[0], "    <Block index=\"%zu\" name=\"Mat\">\n", block_id);
-                for (size_t mat_id=0; mat_id<num_mats; mat_id++){
+                for (size_t piece_id=0; piece_id<mat_ids.size(); piece_id++){
+                    const size_t mat_id = mat_ids[piece_id];
                     
                     // output the material specific fields
-                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_id, mat_id);
+                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", piece_id, mat_id);
                     fprintf(out[0], "        <DataSet timestep=\"%d\" file=\"Fierro.solver%zu.%s%zu.%05d.vtu\" time= \"%12.5e\" />\n", 
                                                                file_id, solver_id, mat_part_name.c_str(), mat_id, file_id, graphics_times(file_id) );
                     fprintf(out[0], "      </Piece>\n");
-- 
2.43.0


From ba67dbcdfbb98d1e1cb76c1ed4038c3f84814545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 43/58] fix: EnSight and VTK readers keep the node order of 2D
 elements

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 6e43f8b..8f3a8db 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -508,7 +508,8 @@ public:
 
         int tmp_ijk_indx[8];
 
-        for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
+        // the nodes of a 2D element go around it, as in the file
+        for (int elem_gid = 0; elem_gid < num_elem && num_dims == 3; elem_gid++) {
             for (int node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
                 tmp_ijk_indx[node_lid] = mesh.nodes_in_elem.host(elem_gid, convert_ensight_to_ijk[node_lid]);
             }
@@ -855,7 +856,8 @@ public:
 
         size_t tmp_ijk_indx[8];
 
-        for (size_t elem_gid = 0; elem_gid < num_elem; elem_gid++) {
+        // the nodes of a 2D element go around it, as in the file
+        for (size_t elem_gid = 0; elem_gid < num_elem && num_dims == 3; elem_gid++) {
             for (size_t node_lid = 0; node_lid < num_nodes_in_elem; node_lid++) {
                 tmp_ijk_indx[node_lid] = mesh.nodes_in_elem.host(elem_gid, convert_ensight_to_ijk[node_lid]);
             }
-- 
2.43.0


From 65a0409dcb1dc0507ae6f0daae188b774356195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 44/58] fix: the mesh scaling factors apply to Abaqus files too

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index 8f3a8db..e324623 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -368,7 +368,7 @@ public:
             read_ensight_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
         }
         else if(extension == "inp"){ // Abaqus meshfile extension
-            read_Abaqus_mesh(mesh, State, num_dims);
+            read_Abaqus_mesh(mesh, State, mesh_inps, num_dims);
         }
         else if(extension == "vtk"){ // vtk file format
             read_vtk_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
@@ -549,6 +549,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     void read_Abaqus_mesh(swage::Mesh& mesh,
                           State_t& State,
+                          mesh_input_t& mesh_inps,
                           int num_dims)
     {
 
@@ -657,9 +658,9 @@ public:
 
         // Copy nodes to mesh
         for(int node_gid = 0; node_gid < num_nodes; node_gid++){
-            State.node.coords.host(node_gid, 0) = nodes[node_gid].x;
-            State.node.coords.host(node_gid, 1) = nodes[node_gid].y;
-            State.node.coords.host(node_gid, 2) = nodes[node_gid].z;
+            State.node.coords.host(node_gid, 0) = mesh_inps.scale_x*nodes[node_gid].x;
+            State.node.coords.host(node_gid, 1) = mesh_inps.scale_y*nodes[node_gid].y;
+            State.node.coords.host(node_gid, 2) = mesh_inps.scale_z*nodes[node_gid].z;
         }
 
         // Update device nodal positions
-- 
2.43.0


From 9bd325f13d05a26b3c417c7b9bfd67a695b6e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 45/58] fix: boundary conditions accept the documented model
 'none'

---
 .../stress/no_stress_bc.hpp                   |  1 +
 .../src/input/parse_bdy_conds_inputs.cpp      | 26 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
index 9549ea9..08180c8 100644
--- a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
@@ -65,6 +65,7 @@ static void stress(const swage::Mesh& mesh,
     const ViewCArrayKokkos <double>& corner_surf_force,
     const ViewCArrayKokkos <double>& corner_surf_normal,
     const double time_value,
+    const size_t rk_stage,
     const size_t bdy_node_gid,
     const size_t bdy_set)
 {
diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..d6da147 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -240,6 +240,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     // bc_velocity_model_map[velocity_model] returns enum value, e.g., boundary_conditions::velocity_constant
                     switch(map[velocity_model]){
 
+                        case boundary_conditions::noVelocityBC :
+                            std::cout << "Setting no velocity bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCVelocityModel = boundary_conditions::noVelocityBC ;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).velocity = &NoVelocityBC::velocity;
+                            });
+                            break;
+
                         case boundary_conditions::constantVelocityBC :
                             std::cout << "Setting constant velocity bc " << std::endl;
                             
@@ -338,6 +347,14 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     auto bc_temperature_model = map[temperature_model];
                     
                     switch(map[temperature_model]){
+                        case boundary_conditions::noTemperatureBC:
+                            std::cout << "Setting no temperature bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCTemperatureModel = boundary_conditions::noTemperatureBC;
+                            });
+                            break;
+
                         case boundary_conditions::constantTemperatureBC:
                             std::cout << "Setting constant temperature bc " << std::endl;
                             
@@ -395,6 +412,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     // bc_stress_model_map[stress_model] returns enum value, e.g., boundary_conditions::stress_constant
                     switch(map[stress_model]){
 
+                        case boundary_conditions::noStressBC :
+                            std::cout << "Setting no stress bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCStressModel = boundary_conditions::noStressBC ;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).stress = &NoStressBC::stress;
+                            });
+                            break;
+
                         case boundary_conditions::constantStressBC :
                             std::cout << "Setting stress bc " << std::endl;
                             
-- 
2.43.0


From a799e199f7ced6c8c5dacc846225817964f51504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 46/58] fix: contact surfaces have a stress function

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index d6da147..94ee9d3 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -449,11 +449,18 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
 
                         case boundary_conditions::globalContact:
+                            // contact forces are applied by the contact algorithm, not as a surface stress
+                            RUN({
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).stress = &NoStressBC::stress;
+                            });
                             std::cout << "Setting contact bc " << std::endl;
                             BoundaryConditions.allow_contact = true;
                             break;
 
                         case boundary_conditions::preloadContact:
+                            RUN({
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).stress = &NoStressBC::stress;
+                            });
                             std::cout << "Setting preload contact bc " << std::endl;
                             BoundaryConditions.allow_preload = true;
                             BoundaryConditions.allow_contact = true;
-- 
2.43.0


From 5b6531b842aea6a050ef949854f76f043b1ceaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 47/58] fix: unknown temperature boundary models are refused

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index 94ee9d3..71f7206 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -388,7 +388,16 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else{
+                    std::cout << "ERROR: invalid boundary condition option input in YAML file: " << temperature_model << std::endl;
+                    std::cout << "Valid options are: " << std::endl;
 
+                    for (const auto& pair : map) {
+                        std::cout << "\t" << pair.first << std::endl;
+                    }
+
+                    throw std::runtime_error("**** Boundary Condition Temperature Model Not Understood ****");
+                } // end if
             }   
 
             // get boundary condition type
-- 
2.43.0


From a9921e5e226121ea147e36a635fbc2d5c1fb0b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 48/58] fix: materials accept the documented 'no_dissipation'
 model and 'no_eos' type

---
 .../src/input/parse_material_inputs.cpp         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..75d23de 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -225,6 +225,14 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
 
                     // eos_type_map[type] returns enum value, e.g., model::decoupled
                     switch(eos_type_map[type]){
+                        case model::noEOSType:
+                            std::cout << "Setting EOS type to no EOS " << std::endl;
+                            RUN({
+                                Materials.MaterialEnums(mat_id).EOSType = model::noEOSType;
+                            });
+                            Materials.MaterialEnums.host(mat_id).EOSType = model::noEOSType;
+                            break;
+
                         case model::decoupledEOSType:
                             std::cout << "Setting EOS type to decoupled " << std::endl;
                             RUN({
@@ -600,6 +608,15 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
 
                     // dissipation_model_map[dissipation_model] returns enum value, e.g., model::dissipation
                     switch(dissipation_model_map[dissipation_model]){
+
+                        case model::noDissipation:
+                            Materials.MaterialEnums.host(mat_id).DissipationModels = model::noDissipation;
+                            RUN({
+                                Materials.MaterialEnums(mat_id).DissipationModels = model::noDissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &NoDissipationModel::calc_dissipation;
+                            });
+                            break;
+                        //
                         case model::MARS:
                             
                             if(num_dims == 2){
-- 
2.43.0


From 7a584de60bebbf309c15fdc9ac44c65435b7224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 49/58] fix: unknown EOS types are refused

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 75d23de..4f9c20d 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -268,6 +268,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
-- 
2.43.0


From 502319a74f7eacacbdb212113932bacf0b4ad36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 50/58] fix: the geometric equilibration option sets the
 geometric equilibration model

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 4f9c20d..9f3fb56 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1119,17 +1119,17 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
                 switch(equilibration_model_map[equilibration_model]){
                     case model::tiptonEquilibration:
                     {
-                        Materials.EquilibrationModels = model::tiptonEquilibration;
+                        Materials.GeoEquilibrationModels = model::tiptonEquilibration;
                         break;
                     }
                     case model::userDefinedEquilibration:
                     {
-                        Materials.EquilibrationModels = model::userDefinedEquilibration;
+                        Materials.GeoEquilibrationModels = model::userDefinedEquilibration;
                         break;
                     }
                     case model::noEquilibration:
                     {
-                        Materials.EquilibrationModels = model::noEquilibration;
+                        Materials.GeoEquilibrationModels = model::noEquilibration;
                         break;
                     }
                     default:
-- 
2.43.0


From 6ccb8e28369c9d8daf85119df8f50ab9ce075058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 51/58] fix: regions of solvers that do not exist are refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..46e123e 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -125,6 +125,12 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
+
+                if (solver_id<0 || solver_id>=num_solvers){
+                    std::cout << "ERROR: invalid solver_id specified in the region definition. Either negative or >= num_solvers" << std::endl;
+
+                    throw std::runtime_error("**** Solver_id is out of bounds ****");
+                } // end check on solver_id range
                 
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
-- 
2.43.0


From 4c398cb3d14af848c7a6f1abcf25775578a0a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 52/58] fix: unknown region volumes are refused

---
 apps/multiphysics/src/input/parse_regions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index 46e123e..df39ea2 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1447,6 +1447,10 @@ void parse_regions(Yaml::Node& root,
                                     break;
                             } // end switch
                         } // end if on setting volume tag
+                        else{
+                            std::cout << "ERROR: invalid input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
+                        } // end if
 
                     }  // end if on volume type
                     // Get mesh file path
-- 
2.43.0


From 846c75fbd12f994da8a774f5bb878804562b1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 53/58] fix: output options that are left out have a value

---
 apps/multiphysics/src/common/include/output_options.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/include/output_options.hpp b/apps/multiphysics/src/common/include/output_options.hpp
index f9240b8..552d5de 100644
--- a/apps/multiphysics/src/common/include/output_options.hpp
+++ b/apps/multiphysics/src/common/include/output_options.hpp
@@ -123,8 +123,8 @@ static std::map<std::string, material_pt_state> elem_outputs_map
 /////////////////////////////////////////////////////////////////////////////
 struct output_options_t
 {
-    output_options::format format;  ///< Format for the output files
-    output_options::timer_output_level timer_level; ///< How often to output mesh WARNING: CURRENTLY UNUSED
+    output_options::format format = output_options::viz;  ///< Format for the output files
+    output_options::timer_output_level timer_level = output_options::thorough; ///< How often to output mesh WARNING: CURRENTLY UNUSED
 
     double graphics_time_step   = 1.0;  ///< How often to write a graphics dump in time
     int graphics_iteration_step = 2000000;  ///< How often to write a graphics dump by iteration count
-- 
2.43.0


From 72d58f045fc6136d8a2a1a9b1fba0de01bb291c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 54/58] fix: outputs keep their interval in solvers that start
 later and between iteration outputs

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 5b6295d..eaf330c 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -611,7 +611,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
                                    SGH3D_State::required_material_pt_state,
                                    this->solver_id);
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            graphics_time = time_value + graphics_dt_ival;
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index b026904..1dc0628 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -459,7 +459,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            graphics_time = time_value + graphics_dt_ival;
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 1cd967d..ae0f48a 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -403,7 +403,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            graphics_time = time_value + graphics_dt_ival;
 
         } // end if
 
-- 
2.43.0


From 47a9cf42fe8fac164c93d5c71b52e01ac3a2f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 55/58] fix: the state of the last cycle is written

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 .../src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp             | 2 +-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index eaf330c..c339048 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -587,7 +587,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 1dc0628..a4b2fdb 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -434,7 +434,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index ae0f48a..1f7630a 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -376,7 +376,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
index f484a9a..c0e4eb2 100644
--- a/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
+++ b/apps/multiphysics/src/Solvers/TLQS_solver_3D/src/tlqs_execute.cpp
@@ -183,7 +183,7 @@ void TLQS3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 75ba514..1cca9ec 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -307,7 +307,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
-- 
2.43.0


From 71be530783487000ebd8b504a25a63d9a49040cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 56/58] fix: the moving heat source starts where its path is

---
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 1f7630a..c5757e7 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -152,6 +152,19 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
     sphere_position.host(2) = 0.0;
     sphere_position.update_device();
 
+    // ---- The heat source starts where its path is ---- //
+    if (SimulationParamaters.solver_inputs[this->solver_id].use_moving_heat_source) {
+        RUN({
+            double x = 0.0;
+            double y = 0.0;
+            double z = 0.0;
+            path.get_position(time_value, x, y, z);
+            sphere_position(0) = x;
+            sphere_position(1) = y;
+            sphere_position(2) = z;
+        });
+    }
+
 
     FOR_ALL(node_gid, 0, mesh.num_nodes, {
         State.node.q_transfer(node_gid) = 0.0;
-- 
2.43.0


From bd9b20518655b5e9d5ac124920b4a029b5a11428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 57/58] fix: solvers end within the run and not before they
 start

---
 apps/multiphysics/src/driver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index 8ff09fe..b8f2458 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -372,7 +372,7 @@ void Driver::setup_solver_vars(T& a_solver,
         }
         else {
             // use the specified time in the input file
-            a_solver->time_end = t_end;
+            a_solver->time_end = fmin(t_end, time_final); // ensure t_end is bounded by final time
         } // end if time was set
     }
     else {
@@ -392,6 +392,9 @@ void Driver::setup_solver_vars(T& a_solver,
         
     } // end if solver=0
 
+    // a solver does not end before it starts
+    a_solver->time_end = fmax(a_solver->time_start, a_solver->time_end);
+
     std::cout << "Solver " << solver_id << " start time = " << a_solver->time_start << ", ending time = " << a_solver->time_end << "\n";
 
     return;
-- 
2.43.0


From 81ea77179b633783886a7d600f01e99eab1df72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 58/58] fix: LS-EVPFFT-J2: only even grids have a Nyquist
 frequency

inverse_the_greens treated frequency n/2 of an odd grid, an ordinary one, as
the Nyquist frequency, so its correction was neither a gradient nor in balance.
The other solvers test for an even number of points.
---
 apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
index 895d08a..7b0bae0 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/inverse_the_greens.cpp
@@ -41,9 +41,9 @@ void EVPFFT::inverse_the_greens()
       } // end for i
     } // end if (xknorm != 0.0)
 
-    if ( kxx + local_start1_cmplx == npts1_g/2+1 || 
-         kyy + local_start2_cmplx == npts2_g/2+1 || 
-         (npts3_g > 1 && kzz + local_start3_cmplx == npts3_g/2+1) ) {
+    if ( (kxx + local_start1_cmplx == npts1_g/2+1 && npts1_g % 2 == 0) || 
+         (kyy + local_start2_cmplx == npts2_g/2+1 && npts2_g % 2 == 0) || 
+         (npts3_g > 1 && (kzz + local_start3_cmplx == npts3_g/2+1 && npts3_g % 2 == 0)) ) {
       for (int l = 1; l <= 3; l++) {
         for (int k = 1; k <= 3; k++) {
           for (int j = 1; j <= 3; j++) {
-- 
2.43.0

