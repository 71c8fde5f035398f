From 46bd05767391ca60a7ae5f0fdc875b9fa46c33da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 01/64] fix: give 'propertyNames' subschemas their own registry
 path

The subschema was looked up under the path of the schema that contains it,
so it could resolve to that schema instead of the propertyNames subschema.
---
 include/valijson/schema_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..f4ff506 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1110,7 +1110,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
-- 
2.43.0


From 6d730ec039b246129c1d966df9c0f751fdcb3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 02/64] fix: escape property names and patterns in schema
 registry paths

A property called 'a/items' and the items of a property called 'a' shared one
registry entry, so one of them was validated against the other's schema.
---
 include/valijson/schema_parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index f4ff506..b07ee95 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2371,7 +2371,8 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" +
+                        escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,7 +2385,8 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" +
+                        escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From dee6c74c9d9be9083c5544077f6d222d4b7301bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 03/64] fix: percent-encode '%' in paths to identified
 subschemas

These paths are percent-decoded when they are resolved, so a subschema that is
identified by $id below a key such as '%41' could not be referenced.
---
 include/valijson/schema_parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index b07ee95..061cfff 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -283,6 +283,9 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                // Pointers are percent-decoded when they are resolved
+                result += "%25";
             } else {
                 result += c;
             }
-- 
2.43.0


From 22a0612b321e4f8a33d68002ad7a7ecbe26e2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 04/64] fix: detect cycles of references that cross documents

A reference chain that alternates between two documents recursed until the
stack overflowed, because only references within one document were checked.
---
 include/valijson/schema_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 061cfff..7405a1b 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -590,6 +590,10 @@ private:
             return registeredPtr;
         }
 
+        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
+            throwRuntimeError("found cycle while resolving JSON reference");
+        }
+
         if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
@@ -669,10 +673,6 @@ private:
 
         }
 
-        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
-            throwRuntimeError("found cycle while resolving JSON reference");
-        }
-
         // JSON References in nested schema will be resolved relative to the
         // current document
         const AdapterType &referencedAdapter =
-- 
2.43.0


From 9626060a1f0acb37eeb33410f8a17e27fbebd589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 05/64] fix: consult the document cache when the root schema is
 a reference

A chain of references from the root schema that returned to a document fetched
it again, and the second copy was never passed to the free function.
---
 include/valijson/schema_parser.hpp | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 7405a1b..0586e9e 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1267,22 +1267,32 @@ private:
                 return;
             }
 
-            // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
+            const typename DocumentCache<AdapterType>::DocumentType *newDoc = nullptr;
 
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
+            // Have we seen this document before?
+            const typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
+                    docCache.find(*actualDocumentUri);
+            if (docCacheItr == docCache.end()) {
+                // Resolve reference against remote document
+                if (!fetchDoc) {
+                    throwRuntimeError("Fetching of remote JSON References not enabled.");
+                }
 
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
+                newDoc = fetchDoc(*actualDocumentUri);
 
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+                // Can't proceed without the remote document
+                if (!newDoc) {
+                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
+                }
+
+                // Add to document cache
+                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
 
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+
+            } else {
+                newDoc = docCacheItr->second;
+            }
 
             const AdapterType newRootNode(*newDoc);
 
-- 
2.43.0


From f7292137830e24a5bb81846ebdc23366208363d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 06/64] fix: follow references found inside identified
 subschemas

A reference to a JSON Pointer below an embedded $id whose target was itself a
reference produced an empty subschema that accepted everything.
---
 include/valijson/schema_parser.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 0586e9e..1f542c4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -611,6 +611,17 @@ private:
                 if (!actualJsonPointer.empty()) {
                     findScopeForPath(registeredRoot, registeredScope,
                             actualJsonPointer, "", referencedScope);
+
+                    std::string nestedJsonRef;
+                    if (extractJsonReference(referencedAdapter, nestedJsonRef)) {
+                        // The referenced node is itself a JSON Reference
+                        newRegistryKeys.push_back(queryKey);
+                        return makeOrReuseSchema(rootSchema, registeredRoot,
+                                referencedAdapter, referencedScope,
+                                actualJsonPointer, fetchDoc, parentSubschema,
+                                ownName, docCache, schemaRegistry,
+                                newRegistryKeys);
+                    }
                 }
 
                 const Subschema *subschema = rootSchema.createSubschema();
-- 
2.43.0


From 7549d9ec0dbd6d6a19e0cc95ab87e90db913cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 07/64] fix: keep references to an identified root schema valid
 when a Schema is moved

A reference to the $id of the root schema was stored as a pointer to the Schema
object, which dangled once the Schema had been moved from and destroyed.
---
 include/valijson/schema_parser.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 1f542c4..c3da717 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -832,8 +832,15 @@ private:
             updatedScope = currentScope;
         }
 
+        // References to the root schema by its identifier must not point to
+        // the Schema object itself, since that object can be moved. They will
+        // refer to a subschema with the same constraints instead.
+        const Subschema *rootAlias = nullptr;
         if (foundId && updatedScope) {
-            schemaRegistry.emplace(*updatedScope, &subschema);
+            if (&subschema == rootSchema.root()) {
+                rootAlias = rootSchema.createSubschema();
+            }
+            schemaRegistry.emplace(*updatedScope, rootAlias ? rootAlias : &subschema);
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
@@ -1179,6 +1186,14 @@ private:
 #endif
             }
         }
+
+        if (rootAlias) {
+            Subschema::ApplyFunction copyConstraint([&rootSchema, rootAlias](const constraints::Constraint &constraint) {
+                rootSchema.addConstraintToSubschema(constraint, rootAlias);
+                return true;
+            });
+            subschema.apply(copyConstraint);
+        }
     }
 
     /**
-- 
2.43.0


From c51389a172e7dec79a571a5de773c2245333c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 08/64] fix: do not cast 2^63 to int64_t

The range checks compared against the largest int64_t converted to double, which
rounds up to 2^63, so that value was still cast with undefined behaviour.
---
 include/valijson/internal/basic_adapter.hpp | 4 +++-
 include/valijson/validation_visitor.hpp     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..ee905ee 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -98,7 +98,9 @@ protected:
         if (d < static_cast<double>(std::numeric_limits<int64_t>::min())) {
             return false;
         }
-        if (d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        // The largest int64_t is not representable as a double, and rounds up
+        // to a value that is out of range
+        if (d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
             return false;
         }
         double intPart = 0.0;
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..314815b 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -954,7 +954,7 @@ public:
             // Casting a double outside the range of int64_t is undefined
             // behaviour, so check those values in floating point instead.
             if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+                    d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
                 if (fabs(remainder(d, static_cast<double>(divisor))) >
                         std::numeric_limits<double>::epsilon()) {
                     if (m_results) {
-- 
2.43.0


From d8b6954f3c22301aa96156ec38fc4f20ffd68595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 09/64] fix: do not truncate fractional numbers when checking
 an integer 'multipleOf'

7.5 was accepted as a multiple of 7, and 0.5 as a multiple of anything.
---
 include/valijson/validation_visitor.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 314815b..e575c26 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -965,6 +965,14 @@ public:
                 return true;
             }
             i = static_cast<int64_t>(d);
+            if (static_cast<double>(i) != d) {
+                // A number with a fractional part is not a multiple of an
+                // integer
+                if (m_results) {
+                    m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+                }
+                return false;
+            }
         } else {
             return true;
         }
-- 
2.43.0


From 999bf84bfefb71dec3aadbee4d6520865f5062ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 10/64] fix: ignore strings in 'multipleOf' when types are
 strict

The other numeric keywords already ignore a string such as "7" in strong type
mode; 'multipleOf' converted it to a number and could reject it.
---
 include/valijson/validation_visitor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index e575c26..5ba63e6 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -862,6 +862,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -933,6 +938,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
-- 
2.43.0


From 8df5db1541e1c451b73fc2c0ec93671dbc8aef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 11/64] fix: represent integers beyond int64_t as doubles
 instead of wrapping

18446744073709551615 became -1 with several of the JSON libraries, and so
satisfied 'maximum: 10'. Such numbers still satisfy 'type: integer', as does any
other number without a fractional part.
---
 .../valijson/adapters/boost_json_adapter.hpp  | 14 ++++++++++++--
 .../adapters/nlohmann_json_adapter.hpp        | 16 +++++++++++++---
 .../valijson/adapters/poco_json_adapter.hpp   | 15 +++++++++++----
 .../valijson/adapters/qvariant_adapter.hpp    | 11 +++++++++--
 .../valijson/adapters/rapidjson_adapter.hpp   | 10 ++++------
 include/valijson/internal/basic_adapter.hpp   | 19 ++++++++++---------
 include/valijson/validation_visitor.hpp       |  6 ------
 7 files changed, 59 insertions(+), 32 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..e8bc0d4 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -324,6 +324,9 @@ public:
         if (m_value.is_double()) {
             result = m_value.get_double();
             return true;
+        } else if (isLargeUnsigned()) {
+            result = static_cast<double>(m_value.get_uint64());
+            return true;
         }
 
         return false;
@@ -334,7 +337,7 @@ public:
         if (m_value.is_int64()) {
             result = m_value.get_int64();
             return true;
-        } else if (m_value.is_uint64()) {
+        } else if (m_value.is_uint64() && !isLargeUnsigned()) {
             result = static_cast<int64_t>(m_value.get_uint64());
             return true;
         }
@@ -413,7 +416,7 @@ public:
 
     bool isDouble() const
     {
-        return m_value.is_double();
+        return m_value.is_double() || isLargeUnsigned();
     }
 
     bool isInteger() const
@@ -443,6 +446,13 @@ public:
 
 private:
 
+    /// Integers that are too large for int64_t can be retrieved as doubles
+    bool isLargeUnsigned() const
+    {
+        return m_value.is_uint64() && m_value.get_uint64() >
+                static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared Boost.JSON instance used to represent empty object.
     static inline const boost::json::value emptyObject;
 
diff --git a/include/valijson/adapters/nlohmann_json_adapter.hpp b/include/valijson/adapters/nlohmann_json_adapter.hpp
index c520757..3bccd76 100644
--- a/include/valijson/adapters/nlohmann_json_adapter.hpp
+++ b/include/valijson/adapters/nlohmann_json_adapter.hpp
@@ -513,7 +513,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.is_number_float()) {
+        if (m_value.is_number_float() || isLargeUnsigned()) {
             result = m_value.get<double>();
             // NaN and Infinity are always serialized as null
             return std::isfinite(result);
@@ -524,7 +524,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if(m_value.is_number_integer()) {
+        if(isInteger()) {
             result = m_value.get<int64_t>();
             return true;
         }
@@ -590,6 +590,9 @@ public:
 
     bool isDouble() const
     {
+        if (isLargeUnsigned()) {
+            return true;
+        }
         if (!m_value.is_number_float()) {
             return false;
         }
@@ -599,7 +602,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_number_integer();
+        return m_value.is_number_integer() && !isLargeUnsigned();
     }
 
     bool isNull() const
@@ -638,6 +641,13 @@ public:
 
 private:
 
+    /// Integers that are too large for int64_t are presented as doubles
+    bool isLargeUnsigned() const
+    {
+        return m_value.is_number_unsigned() && m_value.get<uint64_t>() >
+                static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared NlohmannJson value instance used to represent an empty object
     static inline const nlohmann::json emptyObject = nlohmann::json::object();
 
diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..b793d11 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -328,7 +328,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.isNumeric() && !m_value.isInteger()) {
+        if (isDouble()) {
             result = m_value.convert<double>();
             return true;
         }
@@ -338,7 +338,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
+        if (isInteger()) {
             result = m_value.convert<int64_t>();
             return true;
         }
@@ -411,12 +411,12 @@ public:
 
     bool isDouble() const
     {
-        return m_value.isNumeric() && !m_value.isInteger();
+        return m_value.isNumeric() && (!m_value.isInteger() || isLargeUnsigned());
     }
 
     bool isInteger() const
     {
-        return !isBool() && m_value.isInteger();
+        return !isBool() && m_value.isInteger() && !isLargeUnsigned();
     }
 
     bool isNull() const
@@ -441,6 +441,13 @@ public:
 
 private:
 
+    /// Integers that are too large for int64_t are presented as doubles
+    bool isLargeUnsigned() const
+    {
+        return m_value.isInteger() && !m_value.isSigned() && !m_value.isBoolean() &&
+                m_value.convert<Poco::UInt64>() > static_cast<Poco::UInt64>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared PocoJson value used to represent an empty object
     static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
 
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index a055555..25c71b6 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -417,7 +417,7 @@ public:
             QMetaType::Double,
             QMetaType::Float
         };
-        return types.contains(m_value.typeId());
+        return types.contains(m_value.typeId()) || isLargeUnsigned();
     }
 
     bool isInteger() const
@@ -437,7 +437,7 @@ public:
             QMetaType::SChar,
             QMetaType::UChar
         };
-        return types.contains(m_value.typeId());
+        return types.contains(m_value.typeId()) && !isLargeUnsigned();
     }
 
     bool isNull() const
@@ -462,6 +462,13 @@ public:
 
 private:
 
+    /// Integers that are too large for int64_t are presented as doubles
+    bool isLargeUnsigned() const
+    {
+        return (m_value.typeId() == QMetaType::ULongLong || m_value.typeId() == QMetaType::ULong) &&
+                m_value.toULongLong() > static_cast<qulonglong>(std::numeric_limits<int64_t>::max());
+    }
+
     /// Shared QtVariant value instance used to represent an empty object
     static inline const QVariant emptyObject;
 
diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..5d7809b 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -450,7 +450,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.IsDouble()) {
+        if (isDouble()) {
             result = m_value.GetDouble();
             return true;
         }
@@ -469,9 +469,6 @@ public:
         } else if (m_value.IsUint()) {
             result = static_cast<int64_t>(m_value.GetUint());
             return true;
-        } else if (m_value.IsUint64()) {
-            result = static_cast<int64_t>(m_value.GetUint64());
-            return true;
         }
 
         return false;
@@ -543,12 +540,13 @@ public:
 
     bool isDouble() const
     {
-        return m_value.IsDouble();
+        // Integers that are too large for int64_t are presented as doubles
+        return m_value.IsDouble() || (m_value.IsUint64() && !m_value.IsInt64());
     }
 
     bool isInteger() const
     {
-        return m_value.IsInt() || m_value.IsInt64() || m_value.IsUint() || m_value.IsUint64();
+        return m_value.IsInt() || m_value.IsInt64() || m_value.IsUint();
     }
 
     bool isNull() const
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index ee905ee..82abdda 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -401,8 +401,8 @@ public:
 
     bool asInteger(int64_t &result) const override
     {
-        if (m_value.isInteger()) {
-            return m_value.getInteger(result);
+        if (m_value.isInteger() && m_value.getInteger(result)) {
+            return true;
         } else if (m_value.isDouble()) {
             double d;
             if (m_value.getDouble(d) && doubleIsIntegral(d)) {
@@ -491,12 +491,12 @@ public:
                 result = boolValue ? "true" : "false";
                 return true;
             }
-        } else if (m_value.isInteger()) {
-            int64_t integerValue;
-            if (m_value.getInteger(integerValue)) {
-                result = std::to_string(integerValue);
-                return true;
-            }
+        }
+
+        int64_t integerValue;
+        if (m_value.isInteger() && m_value.getInteger(integerValue)) {
+            result = std::to_string(integerValue);
+            return true;
         } else if (m_value.isDouble()) {
             double doubleValue;
             if (m_value.getDouble(doubleValue)) {
@@ -808,7 +808,8 @@ public:
 
     bool maybeInteger() const override
     {
-        if (m_value.isInteger()) {
+        int64_t integerValue;
+        if (m_value.isInteger() && m_value.getInteger(integerValue)) {
             return true;
         } else if (m_value.isDouble()) {
             double d;
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 5ba63e6..c6b0d08 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -37,12 +37,6 @@ inline bool isDoubleAnInteger(const AdapterType &target)
     if (!std::isfinite(value)) {
         return false;
     }
-    if (value < static_cast<double>(std::numeric_limits<int64_t>::min())) {
-        return false;
-    }
-    if (value > static_cast<double>(std::numeric_limits<int64_t>::max())) {
-        return false;
-    }
     double intPart = 0.0;
     return std::modf(value, &intPart) == 0.0;
 }
-- 
2.43.0


From 267ecf46358d58bb480f1a3412da8f45557d208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 12/64] fix: support 64 bit integers with JsonCpp

Integers that do not fit into 32 bits made JsonCpp throw a Json::LogicError
during validation.
---
 include/valijson/adapters/jsoncpp_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..42893cc 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -327,8 +327,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+        if (isInteger()) {
+            result = static_cast<int64_t>(m_value.asInt64());
             return true;
         }
 
@@ -406,7 +406,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.isIntegral() && !m_value.isBool();
+        return m_value.isInt64();
     }
 
     bool isNull() const
-- 
2.43.0


From 0c18e6f44ea5cb7a97f05d179cf5311c7e52584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 13/64] fix: do not treat Poco booleans as numbers

Poco reports booleans as numeric, so numeric keywords were applied to them and
failed or threw an exception.
---
 include/valijson/adapters/poco_json_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index b793d11..bfdd8c1 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -426,7 +426,7 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        return isInteger() || isDouble();
     }
 
     bool isObject() const
-- 
2.43.0


From f710becdd917ed4f42bdeb242545b0fbcd6cab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 14/64] fix: do not throw when an empty value is cast to an
 array or object

With weak types an empty object can be used as an array and an empty array as an
object, but uniqueItems and additionalProperties asked the original value for
its size.
---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index c6b0d08..b984e37 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1171,7 +1171,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
@@ -1377,7 +1377,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1386,7 +1387,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From 3412d22d844e68b55ab012aa85eab82132a1bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 15/64] fix: convert property names to other types by their
 value

With weak types, keywords below propertyNames saw every property name as the
number 0 or the boolean true.
---
 .../valijson/adapters/std_string_adapter.hpp  | 42 +++++++++++++++----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..6b0ec24 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -117,34 +117,59 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
+        if (!maybeBool()) {
+            return false;
+        }
+
+        result = m_value == "true";
         return true;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to an integer");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
+        std::istringstream i(m_value);
+        int64_t x;
+        char c;
+        if (!(i >> x) || i.get(c)) {
+            return false;
+        }
+
+        result = x;
         return true;
     }
 
@@ -174,7 +199,8 @@ public:
             return false;
         }
 
-        return m_value == other.asString();
+        std::string otherValue;
+        return other.asString(otherValue) && m_value == otherValue;
     }
 
     FrozenValue* freeze() const override
-- 
2.43.0


From 8ba6595bae837fb223abf96d26eca34106eb3f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 16/64] fix: do not throw for dates with very long years

std::stoi threw std::out_of_range for years that do not fit into an int.
---
 include/valijson/validation_visitor.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index b984e37..24ae128 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -409,7 +409,7 @@ public:
             static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
-                const auto year = std::stoi(matches[1].str());
+                const auto year = parse_year(matches[1].str());
                 const auto month = std::stoi(matches[2].str());
                 const auto day = std::stoi(matches[3].str());
                 return validate_date_range(year, month, day);
@@ -457,7 +457,7 @@ public:
             static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
-                const auto year = std::stoi(matches[1].str());
+                const auto year = parse_year(matches[1].str());
                 const auto month = std::stoi(matches[2].str());
                 const auto day = std::stoi(matches[3].str());
                 if (!validate_date_range(year, month, day)) {
@@ -2023,6 +2023,21 @@ private:
         return constraint.accept(visitor);
     }
 
+    /**
+     * @brief    Helper function to convert the digits of a year to a number
+     *           that has the same leap-year status.
+     *
+     * @param    digits  Decimal digits, of which there can be any number. Only
+     *                   the last four digits determine whether it is a leap
+     *                   year.
+     *
+     * @return   the number formed by the last four digits
+     */
+    static int parse_year(const std::string &digits)
+    {
+        return std::stoi(digits.size() > 4 ? digits.substr(digits.size() - 4) : digits);
+    }
+
     /**
      * @brief    Helper function to validate if day is valid for the given
      *           year and month, applying the Gregorian leap-year rules.
-- 
2.43.0


From 993f9881247b224c5463d1b05a4df447f81eed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 17/64] fix: report an error whenever validation fails

Boolean schemas, propertyNames and two other failures rejected a value without
adding an error to the ValidationResults.
---
 include/valijson/validation_visitor.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 24ae128..95f09b7 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -99,6 +99,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "No value is permitted by a schema that is 'false'.");
+            }
             return false;
         }
 
@@ -891,6 +894,9 @@ public:
         }
 
         if (divisor == 0) {
+            if (m_results) {
+                m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+            }
             return false;
         }
 
@@ -1011,6 +1017,10 @@ public:
         const Subschema *subschema = constraint.getSubschema();
         if (!subschema) {
             // Treat nullptr like empty schema
+            if (m_results) {
+                m_results->pushError(m_path,
+                        "Target should not validate against schema specified in 'not' constraint.");
+            }
             return false;
         }
 
@@ -1234,6 +1244,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Property name '" + m.first +
+                            "' does not match the schema set by 'propertyNames' constraint.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From f7147eb756668e0e972763e1423bc1742c9d8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 18/64] fix: validate only uncovered items against
 'additionalItems'

When errors were being collected, an item that failed its own schema shifted the
range that is validated against additionalItems, so errors were reported for
items that additionalItems does not apply to.
---
 include/valijson/validation_visitor.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 95f09b7..d9bbb6d 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -536,9 +536,6 @@ public:
         // the number of sub-schemas provided by the 'items' constraint
         const Subschema * const additionalItemsSubschema = constraint.getAdditionalItemsSubschema();
 
-        // Track how many items are validated using 'items' constraint
-        unsigned int numValidated = 0;
-
         // Array to validate
         const typename AdapterType::Array arr = m_target.asArray();
         const size_t arrSize = arr.size();
@@ -561,7 +558,7 @@ public:
 
             constraint.applyToItemSubschemas(
                     ValidateItems(arr, m_path, true, m_results != nullptr,
-                            m_strictTypes, m_strictDateTime, m_results, &numValidated,
+                            m_strictTypes, m_strictDateTime, m_results, nullptr,
                             &validated, m_regexesCache));
 
             if (!m_results && !validated) {
@@ -570,13 +567,14 @@ public:
         }
 
         // Validate remaining items using 'additionalItems' sub-schema
-        if (numValidated < arrSize) {
+        const size_t numCovered = std::min(itemSubschemaCount, arrSize);
+        if (numCovered < arrSize) {
             if (additionalItemsSubschema) {
-                // Begin validation from the first item not validated against
-                // an sub-schema provided by the 'items' constraint
-                unsigned int index = numValidated;
+                // Begin validation from the first item that does not have a
+                // sub-schema provided by the 'items' constraint
+                size_t index = numCovered;
                 typename AdapterType::Array::const_iterator begin = arr.begin();
-                begin.advance(numValidated);
+                begin.advance(static_cast<std::ptrdiff_t>(numCovered));
                 for (typename AdapterType::Array::const_iterator itr = begin;
                         itr != arr.end(); ++itr) {
 
@@ -605,7 +603,7 @@ public:
                 }
 
             } else if (m_results) {
-                m_results->pushError(m_path, "Cannot validate item #" + std::to_string(numValidated) +
+                m_results->pushError(m_path, "Cannot validate item #" + std::to_string(numCovered) +
                         " or greater using 'items' constraint or 'additionalItems' constraint.");
                 validated = false;
 
-- 
2.43.0


From 95a7ef43a3a7a12158eccadc0fa7f727ef26490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 19/64] fix: match all properties against 'patternProperties'
 when collecting errors

Matching stopped at the first property that failed, so the remaining ones were
reported as not allowed by additionalProperties.
---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index d9bbb6d..e730cb5 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1170,7 +1170,7 @@ public:
         // constraints
         constraint.applyToPatternProperties(
                 ValidatePatternPropertySubschemas(
-                        object, m_path, true, false, true, m_strictTypes, m_strictDateTime,
+                        object, m_path, true, m_results != nullptr, true, m_strictTypes, m_strictDateTime,
                         m_results, &propertiesMatched,
                         &validated, m_regexesCache));
 
-- 
2.43.0


From b95d1a21b8e03d5fdd6a99c810e2f54e86955753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 20/64] fix: do not report errors of schema types when another
 type matches

A Draft 3 'type' with several schemas added the errors of those that failed,
even if the value was valid.
---
 include/valijson/validation_visitor.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index e730cb5..3a23a38 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1360,11 +1360,22 @@ public:
         // Check schema-based types
         {
             unsigned int numValidated = 0;
+
+            ValidationResults newResults;
+            ValidationResults *childResults = (m_results) ? &newResults : nullptr;
+
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime, childResults, m_regexesCache);
+
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
+                ValidationResults::Error childError;
+                while (childResults->popError(childError)) {
+                    m_results->pushError(childError);
+                }
                 m_results->pushError(m_path, "Value type not permitted by 'type' constraint.");
             }
         }
-- 
2.43.0


From 050a0694e70fd861187be565a0c8c1a98f9714c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 21/64] fix: reject %-encoded characters that are not
 hexadecimal

'%zz' in a JSON Pointer was decoded as a NUL character.
---
 include/valijson/internal/json_pointer.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..8957559 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -1,8 +1,8 @@
 #pragma once
 
 #include <algorithm>
-#include <cerrno>
 #include <cstddef>
+#include <cstdlib>
 #include <cstring>
 #include <stdexcept>
 #include <string>
@@ -53,15 +53,13 @@ inline char decodePercentEncodedChar(const std::string &digits)
                 "expected two characters");
     }
 
-    errno = 0;
-    const char *begin = digits.c_str();
-    char *end = nullptr;
-    const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    if (digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
 
+    const unsigned long value = strtoul(digits.c_str(), nullptr, 16);
+
     return char(value);
 }
 
-- 
2.43.0


From efa6955fa2a64475b43401a956b9a6713e407c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 22/64] fix: decode % in JSON Pointer tokens before ~

As described in RFC 6901, section 6, a URI fragment has to be percent-decoded
before it is evaluated as a JSON Pointer, so %7E01 stands for '~1'.
---
 include/valijson/internal/json_pointer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 8957559..9f01ce2 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -96,10 +96,6 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
     // Replace %-encoded character sequences with their actual characters
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
@@ -117,6 +113,11 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // Replace JSON Pointer-specific escaped character sequences, which can
+    // themselves have been %-encoded
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
-- 
2.43.0


From 0623d321a1e80b7b198dccb0a1feb248f6159842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 23/64] fix: accept only array indices that JSON Pointer allows

Tokens such as '1abc', '+1' and '01' were accepted as array indices.
---
 include/valijson/internal/json_pointer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 9f01ce2..8caebe0 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -191,6 +191,14 @@ inline AdapterType resolveJsonPointer(
                     "since the requested array element does not yet exist");
         }
 
+        if (referenceToken.empty() ||
+                referenceToken.find_first_not_of("0123456789") != std::string::npos ||
+                (referenceToken.size() > 1 && referenceToken[0] == '0')) {
+            throwRuntimeError("Expected reference token to contain a "
+                    "non-negative integer to identify an element in the "
+                    "current array; actual token: " + referenceToken);
+        }
+
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-- 
2.43.0


From 7c2ff1f73e7e5828c50f5f3d7428407ffede6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 24/64] fix: do not truncate names and patterns at embedded
 null characters

A JSON string can contain \u0000, but required properties, dependencies,
patterns and others were copied or looked up as null-terminated strings.
---
 .../valijson/adapters/boost_json_adapter.hpp  |  3 ++-
 .../valijson/adapters/rapidjson_adapter.hpp   |  7 ++++--
 .../constraints/concrete_constraints.hpp      | 25 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 14 +++++------
 4 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index e8bc0d4..bc0d145 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -392,7 +392,8 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            const boost::json::string &str = m_value.get_string();
+            result.assign(str.data(), str.size());
             return true;
         }
 
diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5d7809b..ccc16c8 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -40,6 +40,7 @@
 
 #pragma once
 
+#include <cstring>
 #include <optional>
 #include <string>
 #include <iterator>
@@ -861,7 +862,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    memcmp(itr->name.GetString(), propertyName.data(), propertyNameLength) == 0) {
                 return itr;
             }
         }
@@ -869,7 +870,9 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         return m_value.MemberEnd();
     }
 
-    return m_value.FindMember(propertyName.c_str());      // Times are good.
+    // Times are good.
+    return m_value.FindMember(ValueType(rapidjson::StringRef(propertyName.data(),
+            static_cast<rapidjson::SizeType>(propertyName.length()))));
 }
 
 typedef GenericRapidJsonAdapter<> RapidJsonAdapter;
diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..ebea406 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.data(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.data(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,13 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.data(), m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.data(), pattern.size());
     }
 
 private:
@@ -997,7 +997,8 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.data(), patternProperty.size(), m_allocator), subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1013,8 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.data(), propertyName.size(), m_allocator), subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1109,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.data(), propertyName.size(),
+                Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 3a23a38..ff821cf 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1506,14 +1506,14 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            if (m_object.find(std::string(property.data(), property.size())) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            std::string(property.data(), property.size()) + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1549,14 +1549,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.data(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1764,7 +1764,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.data(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1869,7 +1869,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1938,7 +1938,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From 2be875793d41990f7a79948723f7ff53525a1971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 25/64] fix: catch parse errors thrown by nlohmann json when
 loading documents

---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..ea06041 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (nlohmann::json::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From bcd02cb2059ee4611080ab779e0b13fc43ceec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 26/64] fix: do not underflow when reporting early rapidjson
 parse errors

---
 include/valijson/utils/rapidjson_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..4de1cf7 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 
@@ -28,7 +29,8 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            const size_t errorOffset = (std::min)(document.GetErrorOffset(), file.size());
+            std::cerr << "Near: " << file.substr(errorOffset < 20 ? 0 : errorOffset - 20, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From 9dfcfcb2b3285810f5f401d287a3a43bcf47a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 27/64] fix: initialise the parse error reported by the Qt
 loaders

---
 include/valijson/utils/qtjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/qtjson_utils.hpp b/include/valijson/utils/qtjson_utils.hpp
index c05b0f0..bd0f19a 100644
--- a/include/valijson/utils/qtjson_utils.hpp
+++ b/include/valijson/utils/qtjson_utils.hpp
@@ -24,7 +24,7 @@ inline bool loadDocument(const std::string &path, QJsonValue &root)
 
     // Parse schema
     QJsonParseError parseError;
-    QJsonDocument doc = QJsonDocument::fromJson(data);
+    QJsonDocument doc = QJsonDocument::fromJson(data, &parseError);
     if (doc.isNull()) {
         std::cerr << "qt failed to parse the document:" << std::endl
                   << parseError.errorString().toStdString() << std::endl;
-- 
2.43.0


From 1c97cbfc70ea982b054ecb7c64c9f2e60122c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 28/64] fix: do not dereference null pointers for empty Poco
 arrays and objects

---
 include/valijson/adapters/poco_json_adapter.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index bfdd8c1..b190e56 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,8 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray =
+        Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +196,8 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject =
+        Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -449,7 +451,8 @@ private:
     }
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject =
+        Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
-- 
2.43.0


From c93bd538179ff5a193b904cf613c101fe8271887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 29/64] fix: default construct values as empty objects with
 Boost.JSON and Qt

---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 include/valijson/adapters/qtjson_adapter.hpp     | 2 +-
 include/valijson/adapters/qvariant_adapter.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index bc0d145..61a4b8d 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -455,7 +455,7 @@ private:
     }
 
     /// Shared Boost.JSON instance used to represent empty object.
-    static inline const boost::json::value emptyObject;
+    static inline const boost::json::value emptyObject = boost::json::object();
 
     /// Reference to the contained Boost.JSON value.
     const boost::json::value &m_value;
diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 86d6c1b..b13bd86 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -444,7 +444,7 @@ public:
 private:
 
     /// Shared QtJson value instance used to represent an empty object
-    static inline const QJsonValue emptyObject;
+    static inline const QJsonValue emptyObject = QJsonObject();
 
     /// Reference to the contained QtJson value.
     const QJsonValue m_value;
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index 25c71b6..b85d3e8 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -470,7 +470,7 @@ private:
     }
 
     /// Shared QtVariant value instance used to represent an empty object
-    static inline const QVariant emptyObject;
+    static inline const QVariant emptyObject = QVariantMap();
 
     /// Reference to the contained QtVariant value.
     const QVariant m_value;
-- 
2.43.0


From 604b8aecb34e6449f2196523c29e19d7d9438784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 30/64] fix: include the double parser in bundled headers

---
 bundle.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bundle.sh b/bundle.sh
index f2d6503..288698f 100755
--- a/bundle.sh
+++ b/bundle.sh
@@ -65,6 +65,7 @@ fi
 
 common_headers=(
   include/valijson/exceptions.hpp
+  include/valijson/internal/double_parser.hpp
   include/valijson/internal/adapter.hpp
   include/valijson/internal/basic_adapter.hpp
   include/valijson/internal/custom_allocator.hpp
-- 
2.43.0


From 8e6332709c1f370eefcd126f2d37fe5e42e8e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 31/64] fix: accept empty draft 3 schemas as types

---
 include/valijson/schema_parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index c3da717..99b1196 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2579,7 +2579,7 @@ private:
 
         TypeConstraint constraint;
 
-        if (node.maybeString()) {
+        if (node.maybeString() && !node.isObject()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
             if (type == TypeConstraint::kAny && m_version == kDraft4) {
                 throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2587,10 +2587,10 @@ private:
 
             constraint.addNamedType(type);
 
-        } else if (node.maybeArray()) {
+        } else if (node.maybeArray() && !node.isObject()) {
             int index = 0;
             for (const AdapterType v : node.getArray()) {
-                if (v.maybeString()) {
+                if (v.maybeString() && !v.isObject()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
                     if (type == TypeConstraint::kAny && m_version == kDraft4) {
                         throwRuntimeError("'any' type is not supported in version 4 schemas.");
-- 
2.43.0


From 460fb0a209e4456150252dd1bd924888c59716e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 32/64] fix: apply draft 3 'required' to every parent of a
 property schema

---
 include/valijson/schema_parser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 99b1196..71fbdb5 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -528,6 +528,19 @@ private:
                 populateSchema(rootSchema, rootNode, node, *subschema,
                         currentScope, nodePath, fetchDoc, parentSubschema,
                         ownName, docCache, schemaRegistry);
+            } else if (m_version == kDraft3 && parentSubschema && ownName && node.isObject()) {
+                // The 'required' attribute in a Draft 3 schema constrains the
+                // parent, so it also has to be taken into account when the
+                // subschema itself has already been populated
+                const typename AdapterType::Object object = node.getObject();
+                const typename AdapterType::Object::const_iterator itr = object.find("required");
+                if (itr != object.end()) {
+                    const std::optional<constraints::RequiredConstraint> constraint =
+                            makeRequiredConstraintForSelf(itr->second, *ownName);
+                    if (constraint) {
+                        rootSchema.addConstraintToSubschema(*constraint, parentSubschema);
+                    }
+                }
             }
 
             return subschema;
-- 
2.43.0


From 67a911db253f24faf31be7e1f4e709d2f39925b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 33/64] fix: do not treat plain-name identifiers as a new base
 URI

---
 include/valijson/schema_parser.hpp | 47 ++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 71fbdb5..0ebd916 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -311,6 +311,22 @@ private:
         return internal::uri::resolveRelativeUri(*currentScope, id);
     }
 
+    /**
+     * Determine the scope in which the references found in an identified schema
+     * are resolved. An identifier that is only a fragment names a place in the
+     * current document, and does not change the scope.
+     */
+    std::optional<std::string> resolveScope(
+            const std::optional<std::string> &currentScope,
+            const std::string &id) const
+    {
+        if (!id.empty() && id[0] == '#') {
+            return currentScope;
+        }
+
+        return resolveId(currentScope, id);
+    }
+
     template<typename AdapterType>
     bool findSchemaById(
             const AdapterType &node,
@@ -327,8 +343,9 @@ private:
             const typename AdapterType::Object::const_iterator itr =
                     object.find(idKeyword());
             if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
-                if (updatedScope && *updatedScope == targetUri) {
+                const std::string id = itr->second.asString();
+                updatedScope = resolveScope(currentScope, id);
+                if (resolveId(currentScope, id) == targetUri) {
                     foundPath = nodePath;
                     foundScope = currentScope;
                     return true;
@@ -378,7 +395,7 @@ private:
             const typename AdapterType::Object::const_iterator itr =
                     object.find(idKeyword());
             if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
+                updatedScope = resolveScope(currentScope, itr->second.asString());
             }
 
             for (const typename AdapterType::ObjectMember member : object) {
@@ -573,7 +590,7 @@ private:
             std::optional<std::string> registeredScope;
             if (findSchemaById(rootNode, currentScope, idRef,
                         "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
+                const AdapterType registeredNode =
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
 
@@ -587,8 +604,8 @@ private:
                 newRegistryKeys.push_back(idRef);
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
 
-                populateSchema(rootSchema, registeredRoot, registeredRoot,
-                        *subschema, registeredScope, "", fetchDoc,
+                populateSchema(rootSchema, rootNode, registeredNode,
+                        *subschema, registeredScope, registeredPath, fetchDoc,
                         parentSubschema, ownName, docCache, schemaRegistry);
 
                 return subschema;
@@ -835,12 +852,12 @@ private:
 
         // Check for schema identifier attribute and update current scope.
         std::optional<std::string> updatedScope;
-        bool foundId = false;
+        std::optional<std::string> idUri;
         if ((itr = object.find(idKeyword())) != object.end() && itr->second.maybeString()) {
-            foundId = true;
             const std::string id = itr->second.asString();
             rootSchema.setSubschemaId(&subschema, itr->second.asString());
-            updatedScope = resolveId(currentScope, id);
+            idUri = resolveId(currentScope, id);
+            updatedScope = resolveScope(currentScope, id);
         } else {
             updatedScope = currentScope;
         }
@@ -849,11 +866,11 @@ private:
         // the Schema object itself, since that object can be moved. They will
         // refer to a subschema with the same constraints instead.
         const Subschema *rootAlias = nullptr;
-        if (foundId && updatedScope) {
+        if (idUri) {
             if (&subschema == rootSchema.root()) {
                 rootAlias = rootSchema.createSubschema();
             }
-            schemaRegistry.emplace(*updatedScope, rootAlias ? rootAlias : &subschema);
+            schemaRegistry.emplace(*idUri, rootAlias ? rootAlias : &subschema);
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
@@ -1274,13 +1291,13 @@ private:
             std::optional<std::string> registeredScope;
             if (findSchemaById(rootNode, currentScope, idRef,
                         "", registeredPath, registeredScope)) {
-                const AdapterType registeredRoot =
+                const AdapterType registeredNode =
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
 
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        registeredRoot, subschema, registeredScope,
-                        "", fetchDoc, parentSchema, ownName,
+                resolveThenPopulateSchema(rootSchema, rootNode,
+                        registeredNode, subschema, registeredScope,
+                        registeredPath, fetchDoc, parentSchema, ownName,
                         docCache, schemaRegistry);
                 return;
             }
-- 
2.43.0


From 286962a6f9d5e42d1844dcd197d0e310ff5fc519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 34/64] fix: ignore an empty fragment in schema identifiers

---
 include/valijson/schema_parser.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 0ebd916..c912856 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -301,8 +301,14 @@ private:
 
     std::optional<std::string> resolveId(
             const std::optional<std::string> &currentScope,
-            const std::string &id) const
+            const std::string &identifier) const
     {
+        // An empty fragment is not part of the URI that references resolve to
+        const bool emptyFragment = identifier.size() > 1 && identifier.back() == '#';
+        const std::string id = emptyFragment
+                ? identifier.substr(0, identifier.size() - 1)
+                : identifier;
+
         if (!currentScope || internal::uri::isUriAbsolute(id) ||
                 internal::uri::isUrn(id)) {
             return id;
-- 
2.43.0


From 0b97c493580e601704b4b4335b7fd5492db2d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 35/64] fix: follow references to the root of the document when
 populating the root schema

---
 include/valijson/schema_parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index c912856..7f4bac2 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1377,6 +1377,10 @@ private:
             resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
                     subschema, referencedScope, actualJsonPointer, fetchDoc,
                     parentSchema, ownName, docCache, schemaRegistry);
+        } else if (!extractJsonReference(rootNode, jsonRef)) {
+            resolveThenPopulateSchema(rootSchema, rootNode, rootNode,
+                    subschema, currentScope, "", fetchDoc, parentSchema,
+                    ownName, docCache, schemaRegistry);
         } else {
             throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
         }
-- 
2.43.0


From b531300ef6fa131ce9550c28c22cf4252788c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 36/64] fix: do not cast NaN to an integer when checking
 multipleOf

---
 include/valijson/validation_visitor.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index ff821cf..a3e9ce5 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -961,10 +961,12 @@ public:
             }
             // Casting a double outside the range of int64_t is undefined
             // behaviour, so check those values in floating point instead.
-            if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
-                if (fabs(remainder(d, static_cast<double>(divisor))) >
-                        std::numeric_limits<double>::epsilon()) {
+            // The conditions are written such that infinities and NaN are never
+            // cast, and are not multiples of anything.
+            if (!(d >= static_cast<double>(std::numeric_limits<int64_t>::min()) &&
+                    d < static_cast<double>(std::numeric_limits<int64_t>::max()))) {
+                if (!(fabs(remainder(d, static_cast<double>(divisor))) <=
+                        std::numeric_limits<double>::epsilon())) {
                     if (m_results) {
                         m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
                     }
-- 
2.43.0


From b438fedcf66fa81e50829509b6d91dcea9f0be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 37/64] fix: tell integers and doubles held by JsonCpp apart

---
 include/valijson/adapters/jsoncpp_adapter.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 42893cc..752c544 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -317,7 +317,7 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.isDouble()) {
+        if (isDouble()) {
             result = m_value.asDouble();
             return true;
         }
@@ -401,12 +401,16 @@ public:
 
     bool isDouble() const
     {
-        return m_value.isDouble();
+        // JsonCpp considers integers to be doubles, too. Only those that are too
+        // large for int64_t are presented as such.
+        return m_value.type() == Json::realValue ||
+                (m_value.type() == Json::uintValue && !m_value.isInt64());
     }
 
     bool isInteger() const
     {
-        return m_value.isInt64();
+        // JsonCpp considers doubles with an integral value to be integers, too
+        return m_value.type() != Json::realValue && m_value.isInt64();
     }
 
     bool isNull() const
-- 
2.43.0


From 466178b344181bf7337d53ff4b28fa7f8e78bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 38/64] fix: do not change integers held by PicoJson when read
 as doubles

---
 include/valijson/adapters/picojson_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/picojson_adapter.hpp b/include/valijson/adapters/picojson_adapter.hpp
index 44403ae..c9f55cc 100644
--- a/include/valijson/adapters/picojson_adapter.hpp
+++ b/include/valijson/adapters/picojson_adapter.hpp
@@ -330,7 +330,8 @@ public:
 
     bool getDouble(double &result) const
     {
-        if (m_value.is<double>()) {
+        // Retrieving an integer as a double would change the value itself
+        if (isDouble()) {
             result = m_value.get<double>();
             return true;
         }
-- 
2.43.0


From 6161cc87965b679734a5e5d42f3e1aaf4c6408fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 39/64] fix: support 64 bit integers with QtJson

---
 include/valijson/adapters/qtjson_adapter.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index b13bd86..b5cd718 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -337,8 +337,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isDouble()) {
-            result = m_value.toInt();
+        if (isInteger()) {
+            result = toInteger(0);
             return true;
         }
 
@@ -417,8 +417,8 @@ public:
 
     bool isInteger() const
     {
-        //toInt returns the default value (0, 1) if the value is not a whole number
-        return m_value.isDouble() && (m_value.toInt(0) == m_value.toInt(1));
+        // The default value (0, 1) is returned if the value is not a whole number
+        return m_value.isDouble() && (toInteger(0) == toInteger(1));
     }
 
     bool isNull() const
@@ -443,6 +443,16 @@ public:
 
 private:
 
+    /// Return the value as an integer, or a default if it is not a whole number
+    int64_t toInteger(int64_t defaultValue) const
+    {
+#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
+        return m_value.toInteger(defaultValue);
+#else
+        return m_value.toInt(static_cast<int>(defaultValue));
+#endif
+    }
+
     /// Shared QtJson value instance used to represent an empty object
     static inline const QJsonValue emptyObject = QJsonObject();
 
-- 
2.43.0


From 167abcd4ff328c6bb4aba96dd80fa639e6846059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 40/64] fix: do not convert large numbers held by Json11 to int

---
 include/valijson/adapters/json11_adapter.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/json11_adapter.hpp b/include/valijson/adapters/json11_adapter.hpp
index 8a82de0..6faf742 100644
--- a/include/valijson/adapters/json11_adapter.hpp
+++ b/include/valijson/adapters/json11_adapter.hpp
@@ -25,6 +25,7 @@
 
 #pragma once
 
+#include <limits>
 #include <optional>
 #include <string>
 #include <json11.hpp>
@@ -406,7 +407,14 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_number() && m_value.int_value() == m_value.number_value();
+        if (!m_value.is_number()) {
+            return false;
+        }
+
+        // Values outside the range of int cannot be converted to int
+        const double d = m_value.number_value();
+        return d >= std::numeric_limits<int>::min() && d <= std::numeric_limits<int>::max() &&
+                m_value.int_value() == d;
     }
 
     bool isNull() const
-- 
2.43.0


From e5bbb4817d1dbe1db0cba2cd3a562a62857b5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 41/64] fix: do not throw when a YAML scalar cannot be
 converted

---
 include/valijson/adapters/yaml_cpp_adapter.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/valijson/adapters/yaml_cpp_adapter.hpp b/include/valijson/adapters/yaml_cpp_adapter.hpp
index ab87272..7dbe237 100644
--- a/include/valijson/adapters/yaml_cpp_adapter.hpp
+++ b/include/valijson/adapters/yaml_cpp_adapter.hpp
@@ -310,9 +310,9 @@ class YamlCppValue
 
     bool getBool(bool &result) const
     {
+        // Unlike Node::as, this does not throw if the value cannot be converted
         if (m_value.IsScalar()) {
-            result = m_value.as<bool>();
-            return true;
+            return YAML::convert<bool>::decode(m_value, result);
         }
 
         return false;
@@ -320,9 +320,9 @@ class YamlCppValue
 
     bool getDouble(double &result) const
     {
+        // Unlike Node::as, this does not throw if the value cannot be converted
         if (m_value.IsScalar()) {
-            result = m_value.as<double>();
-            return true;
+            return YAML::convert<double>::decode(m_value, result);
         }
 
         return false;
@@ -330,9 +330,9 @@ class YamlCppValue
 
     bool getInteger(int64_t &result) const
     {
+        // Unlike Node::as, this does not throw if the value cannot be converted
         if (m_value.IsScalar()) {
-            result = m_value.as<int64_t>();
-            return true;
+            return YAML::convert<int64_t>::decode(m_value, result);
         }
         return false;
     }
-- 
2.43.0


From d63aaff859bfa3c35d544e23393a7ef2b23c68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:42 +0000
Subject: [PATCH 42/64] fix: do not depend on the locale when converting
 between numbers and strings

---
 include/valijson/adapters/std_string_adapter.hpp | 4 ++++
 include/valijson/internal/basic_adapter.hpp      | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 6b0ec24..22d75da 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <locale>
+#include <sstream>
 #include <string>
 
 #include <valijson/internal/adapter.hpp>
@@ -163,6 +165,7 @@ public:
     bool asInteger(int64_t &result) const override
     {
         std::istringstream i(m_value);
+        i.imbue(std::locale::classic());
         int64_t x;
         char c;
         if (!(i >> x) || i.get(c)) {
@@ -348,6 +351,7 @@ public:
     bool maybeInteger() const override
     {
         std::istringstream i(m_value);
+        i.imbue(std::locale::classic());
         int64_t x;
         char c;
         if (!(i >> x) || i.get(c)) {
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 82abdda..95473ed 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <cstdint>
 #include <limits>
+#include <locale>
 #include <optional>
 #include <sstream>
 
@@ -413,6 +414,7 @@ public:
             std::string s;
             if (m_value.getString(s)) {
                 std::istringstream i(s);
+                i.imbue(std::locale::classic());
                 int64_t x;
                 char c;
                 if (!(!(i >> x) || i.get(c))) {
@@ -500,7 +502,11 @@ public:
         } else if (m_value.isDouble()) {
             double doubleValue;
             if (m_value.getDouble(doubleValue)) {
-                result = std::to_string(doubleValue);
+                // Same as std::to_string, but does not depend on the locale
+                std::ostringstream stream;
+                stream.imbue(std::locale::classic());
+                stream << std::fixed << doubleValue;
+                result = stream.str();
                 return true;
             }
         }
@@ -820,6 +826,7 @@ public:
             std::string s;
             if (m_value.getString(s)) {
                 std::istringstream i(s);
+                i.imbue(std::locale::classic());
                 int64_t x;
                 char c;
                 if (!(i >> x) || i.get(c)) {
-- 
2.43.0


From 4c5caf5bf2bcb52365d5831e5f6d0c8a51f2b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 43/64] fix: compare integers exactly

---
 include/valijson/internal/basic_adapter.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 95473ed..4904a99 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -108,6 +108,23 @@ protected:
         return std::modf(d, &intPart) == 0.0;
     }
 
+    /// Returns true if two numbers are equal. Integers are not rounded to
+    /// double, which would change those beyond 2^53.
+    static bool numbersEqual(const Adapter &x, const Adapter &y)
+    {
+        int64_t i, j;
+        const bool xIsInteger = x.getInteger(i);
+        const bool yIsInteger = y.getInteger(j);
+        if (xIsInteger && yIsInteger) {
+            return i == j;
+        } else if (!xIsInteger && !yIsInteger) {
+            return x.getNumber() == y.getNumber();
+        }
+
+        const double d = xIsInteger ? y.getNumber() : x.getNumber();
+        return doubleIsIntegral(d) && static_cast<int64_t>(d) == (xIsInteger ? i : j);
+    }
+
     /**
      * @brief   Functor for comparing two arrays.
      *
@@ -521,7 +538,7 @@ public:
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
         } else if (isNumber() && strict) {
-            return other.isNumber() && other.getNumber() == getNumber();
+            return other.isNumber() && numbersEqual(*this, other);
         } else if (!strict && maybeDouble()) {
             return (other.maybeDouble() && other.asDouble() == asDouble());
         } else if (!strict && maybeInteger()) {
-- 
2.43.0


From f10e61039cfff881a32493cfe91693ffda36f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 44/64] fix: compare integers with numeric bounds exactly

---
 include/valijson/validation_visitor.hpp | 32 +++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a3e9ce5..78bb869 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -41,6 +41,30 @@ inline bool isDoubleAnInteger(const AdapterType &target)
     return std::modf(value, &intPart) == 0.0;
 }
 
+/// Returns the difference between a number and a bound, as a value that is
+/// negative, zero or positive. Integers are not rounded to double, which would
+/// change those beyond 2^53.
+template<typename AdapterType>
+inline double compareToBound(const AdapterType &target, double bound)
+{
+    int64_t value = 0;
+    if (target.isDouble() || !target.asInteger(value) ||
+            !(bound >= static_cast<double>(std::numeric_limits<int64_t>::min()) &&
+              bound < static_cast<double>(std::numeric_limits<int64_t>::max()))) {
+        const double number = target.asDouble();
+        return number < bound ? -1. : number > bound ? 1. : number == bound ? 0. : std::numeric_limits<double>::quiet_NaN();
+    }
+
+    double intPart = 0.0;
+    const double fraction = std::modf(bound, &intPart);
+    const int64_t intBound = static_cast<int64_t>(intPart);
+    if (value != intBound) {
+        return value < intBound ? -1. : 1.;
+    }
+
+    return -fraction;
+}
+
 }  // namespace detail
 
 /**
@@ -632,7 +656,7 @@ public:
         const double maximum = constraint.getMaximum();
 
         if (constraint.getExclusiveMaximum()) {
-            if (m_target.asDouble() >= maximum) {
+            if (detail::compareToBound(m_target, maximum) >= 0) {
                 if (m_results) {
                     m_results->pushError(m_path, "Expected number less than " + std::to_string(maximum));
                 }
@@ -640,7 +664,7 @@ public:
                 return false;
             }
 
-        } else if (m_target.asDouble() > maximum) {
+        } else if (detail::compareToBound(m_target, maximum) > 0) {
             if (m_results) {
                 m_results->pushError(m_path, "Expected number less than or equal to " + std::to_string(maximum));
             }
@@ -749,14 +773,14 @@ public:
         const double minimum = constraint.getMinimum();
 
         if (constraint.getExclusiveMinimum()) {
-            if (m_target.asDouble() <= minimum) {
+            if (detail::compareToBound(m_target, minimum) <= 0) {
                 if (m_results) {
                     m_results->pushError(m_path, "Expected number greater than " + std::to_string(minimum));
                 }
 
                 return false;
             }
-        } else if (m_target.asDouble() < minimum) {
+        } else if (detail::compareToBound(m_target, minimum) < 0) {
             if (m_results) {
                 m_results->pushError(m_path, "Expected number greater than or equal to " + std::to_string(minimum));
             }
-- 
2.43.0


From 9021388da81cfb69ab56552d0525274eaeabc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:07 +0000
Subject: [PATCH 45/64] fix: do not allocate memory in RapidJSON assertions
 that hold

---
 include/valijson/adapters/rapidjson_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index ccc16c8..348e57c 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -52,12 +52,12 @@
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
     #else
         template<typename T>
-        T rapidjson_assert(T t, const std::string& file, const int line) {
+        T rapidjson_assert(T t, const char *file, const int line) {
           if (t) {
             return t;
           }
 
-          throw std::runtime_error("assertion failed; file: " + file + "; line: " + std::to_string(line));
+          throw std::runtime_error("assertion failed; file: " + std::string(file) + "; line: " + std::to_string(line));
         }
 
         #define RAPIDJSON_ASSERT(x) rapidjson_assert(x, __FILE__, __LINE__)
-- 
2.43.0


From 830b1169b123306fb43209fb13c63b778df93e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:07 +0000
Subject: [PATCH 46/64] fix: do not use null pointers returned by custom
 allocation functions

---
 include/valijson/internal/custom_allocator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..ea93735 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <limits>
+#include <new>
+
+#include <valijson/exceptions.hpp>
 
 namespace valijson {
 namespace internal {
@@ -67,7 +70,12 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void *ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+            throwRuntimeError("Failed to allocate memory");
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From dd780406feb806984f859d96b6e040bfbe91570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:07 +0000
Subject: [PATCH 47/64] fix: use custom allocation functions for the
 constraints of subschemas, too

---
 include/valijson/schema.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema.hpp b/include/valijson/schema.hpp
index b5b6c71..cc09a8b 100644
--- a/include/valijson/schema.hpp
+++ b/include/valijson/schema.hpp
@@ -220,7 +220,7 @@ private:
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-            return new (ptr) Subschema();
+            return new (ptr) Subschema(m_allocFn, m_freeFn);
 #if VALIJSON_USE_EXCEPTIONS
         } catch (...) {
             m_freeFn(ptr);
-- 
2.43.0


From 895844ac571a2f2cc286868f33009787d059f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 48/64] fix: do not leak enum values when memory runs out

---
 include/valijson/constraints/concrete_constraints.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ebea406..8b6d862 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -16,6 +16,7 @@
 
 #include <limits>
 #include <map>
+#include <memory>
 #include <set>
 #include <string>
 #include <vector>
@@ -402,13 +403,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<const EnumValue> enumValue(value.freeze());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<const EnumValue> enumValue(value.clone());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 98c88a9a7bbf7eb6915b27f4111db3d76e8af857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 49/64] fix: do not leak fetched documents when memory runs out

---
 include/valijson/schema_parser.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 7f4bac2..dc2a1dd 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -164,7 +164,9 @@ private:
         typedef typename DocumentCache<AdapterType>::Type DocCacheType;
 
         for (const typename DocCacheType::value_type &v : docCache) {
-            freeDoc(v.second);
+            if (v.second) {
+                freeDoc(v.second);
+            }
         }
     }
 
@@ -687,18 +689,17 @@ private:
                 // retrieved, or null if retrieval failed. This class
                 // will take ownership of the pointer, and call freeDoc
                 // when it is no longer needed.
-                newDoc = fetchDoc(*actualDocumentUri);
+                // The cache entry is created first, so that the document is
+                // not lost if memory runs out.
+                auto &docCacheEntry = docCache[*actualDocumentUri];
+                docCacheEntry = fetchDoc(*actualDocumentUri);
+                newDoc = docCacheEntry;
 
                 // Can't proceed without the remote document
                 if (!newDoc) {
                     throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
                 }
 
-                typedef typename DocumentCache<AdapterType>::Type::value_type
-                        DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
             } else {
                 newDoc = docCacheItr->second;
             }
@@ -1340,18 +1341,17 @@ private:
                     throwRuntimeError("Fetching of remote JSON References not enabled.");
                 }
 
-                newDoc = fetchDoc(*actualDocumentUri);
+                // Add to document cache first, so that the document is not
+                // lost if memory runs out
+                auto &docCacheEntry = docCache[*actualDocumentUri];
+                docCacheEntry = fetchDoc(*actualDocumentUri);
+                newDoc = docCacheEntry;
 
                 // Can't proceed without the remote document
                 if (!newDoc) {
                     throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
                 }
 
-                // Add to document cache
-                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
             } else {
                 newDoc = docCacheItr->second;
             }
-- 
2.43.0


From e208450ce970c694c326ec22544009007c95dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 50/64] fix: a relative reference containing '://' in its path,
 query or fragment is not absolute

---
 include/valijson/internal/uri.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index b030743..32b1dfe 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include <cctype>
 #include <optional>
 #include <string>
 #include <vector>
@@ -20,9 +21,20 @@ inline std::optional<size_t> parseScheme(const std::string &uri)
 
     const auto pos = uri.find(marker);
 
-    return pos == std::string::npos
-        ? std::nullopt
-        : std::make_optional<size_t>(pos + 3);
+    // The marker only ends a scheme if everything before it can be a scheme;
+    // it may also occur in the path, query or fragment of a relative reference
+    if (pos == std::string::npos || pos == 0 ||
+            !std::isalpha(static_cast<unsigned char>(uri[0]))) {
+        return std::nullopt;
+    }
+    for (size_t i = 1; i < pos; i++) {
+        const char c = uri[i];
+        if (!std::isalnum(static_cast<unsigned char>(c)) && c != '+' && c != '-' && c != '.') {
+            return std::nullopt;
+        }
+    }
+
+    return std::make_optional<size_t>(pos + 3);
 }
 
 /**
-- 
2.43.0


From 292480ceeef44a8df8bb7a4ee5e757634bc3666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 51/64] fix: integers near 2^63 equalled bounds beyond int64_t,
 and QtJson integers were compared as doubles

---
 include/valijson/validation_visitor.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 78bb869..efd45db 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -48,13 +48,18 @@ template<typename AdapterType>
 inline double compareToBound(const AdapterType &target, double bound)
 {
     int64_t value = 0;
-    if (target.isDouble() || !target.asInteger(value) ||
-            !(bound >= static_cast<double>(std::numeric_limits<int64_t>::min()) &&
-              bound < static_cast<double>(std::numeric_limits<int64_t>::max()))) {
+    if ((target.isDouble() && !target.isInteger()) || !target.asInteger(value) || std::isnan(bound)) {
         const double number = target.asDouble();
         return number < bound ? -1. : number > bound ? 1. : number == bound ? 0. : std::numeric_limits<double>::quiet_NaN();
     }
 
+    // Bounds that no integer can reach
+    if (bound < static_cast<double>(std::numeric_limits<int64_t>::min())) {
+        return 1.;
+    } else if (bound >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        return -1.;
+    }
+
     double intPart = 0.0;
     const double fraction = std::modf(bound, &intPart);
     const int64_t intBound = static_cast<int64_t>(intPart);
-- 
2.43.0


From 8f9381f1f75ef915db32a62223366d372a486bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 52/64] fix: multipleOf accepted numbers that are much smaller
 than a fractional or large divisor

---
 include/valijson/validation_visitor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index efd45db..787e3ea 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -946,7 +946,9 @@ public:
         const double tolerance = std::max(std::fabs(quotient), 1.0)
                 * std::numeric_limits<double>::epsilon();
 
-        if (diff > tolerance) {
+        // A number that is not zero is not zero times the divisor, however
+        // small it is
+        if (rounded == 0 || diff > tolerance) {
             if (m_results) {
                 m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
             }
-- 
2.43.0


From 6bcbb48526a4e18968923bdce077cf075832ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 53/64] fix: multipleOf an integer beyond 2^53 was rounded for
 instances beyond int64_t

---
 include/valijson/validation_visitor.hpp | 28 ++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 787e3ea..094f580 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -41,6 +41,29 @@ inline bool isDoubleAnInteger(const AdapterType &target)
     return std::modf(value, &intPart) == 0.0;
 }
 
+/// Checks whether a double that is outside the range of int64_t is a multiple
+/// of an integer, which itself might not be representable as a double.
+inline bool isLargeDoubleMultipleOf(double value, int64_t divisor)
+{
+    if (!std::isfinite(value) || divisor == 0) {
+        return false;
+    }
+
+    const uint64_t modulus = divisor < 0
+            ? uint64_t(0) - static_cast<uint64_t>(divisor)
+            : static_cast<uint64_t>(divisor);
+
+    // value = mantissa * 2^exponent, where the mantissa is an integer
+    int exponent = 0;
+    const double mantissa = std::ldexp(std::frexp(std::fabs(value), &exponent), 53);
+    uint64_t remainder = static_cast<uint64_t>(mantissa) % modulus;
+    for (exponent -= 53; exponent > 0; exponent--) {
+        remainder = (remainder * 2) % modulus;
+    }
+
+    return remainder == 0;
+}
+
 /// Returns the difference between a number and a bound, as a value that is
 /// negative, zero or positive. Integers are not rounded to double, which would
 /// change those beyond 2^53.
@@ -991,13 +1014,12 @@ public:
                 return false;
             }
             // Casting a double outside the range of int64_t is undefined
-            // behaviour, so check those values in floating point instead.
+            // behaviour, so check those values without casting.
             // The conditions are written such that infinities and NaN are never
             // cast, and are not multiples of anything.
             if (!(d >= static_cast<double>(std::numeric_limits<int64_t>::min()) &&
                     d < static_cast<double>(std::numeric_limits<int64_t>::max()))) {
-                if (!(fabs(remainder(d, static_cast<double>(divisor))) <=
-                        std::numeric_limits<double>::epsilon())) {
+                if (!detail::isLargeDoubleMultipleOf(d, divisor)) {
                     if (m_results) {
                         m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
                     }
-- 
2.43.0


From fa93328b71d951e3a66c6e3bcb503323dcd8cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 54/64] fix: multipleOf rejected decimal multiples such as
 9.0888 of 0.0012 (three roundings, but tolerance for two)

---
 include/valijson/validation_visitor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 094f580..f1e0887 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -966,8 +966,10 @@ public:
 
         const double rounded = std::round(quotient);
         const double diff = std::fabs(quotient - rounded);
+        // The two operands and the division are each rounded by up to half an
+        // epsilon, which adds up to a little more than one and a half
         const double tolerance = std::max(std::fabs(quotient), 1.0)
-                * std::numeric_limits<double>::epsilon();
+                * 2 * std::numeric_limits<double>::epsilon();
 
         // A number that is not zero is not zero times the divisor, however
         // small it is
-- 
2.43.0


From 6ac751cdcb235b51dd72d4691644e7c70baba2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 55/64] fix: reference to a root node that is itself a
 reference was rejected when it was reached from a reference at the root

---
 include/valijson/schema_parser.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index dc2a1dd..cdc4474 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -3,6 +3,7 @@
 #include <functional>
 #include <iostream>
 #include <optional>
+#include <set>
 #include <vector>
 
 #include <valijson/constraints/concrete_constraints.hpp>
@@ -1257,6 +1258,8 @@ private:
      *                        the 'required' keyword in Draft 3
      * @param  docCache       Cache of resolved and fetched remote documents
      * @param  schemaRegistry Registry of populated schemas
+     * @param  visitedRoots   Scopes of the root nodes that have been visited
+     *                        while resolving the current node
      */
     template<typename AdapterType>
     void resolveThenPopulateSchema(
@@ -1270,7 +1273,8 @@ private:
         const Subschema *parentSchema,
         const std::string *ownName,
         typename DocumentCache<AdapterType>::Type &docCache,
-        SchemaRegistry &schemaRegistry)
+        SchemaRegistry &schemaRegistry,
+        const std::set<std::string> &visitedRoots = std::set<std::string>())
     {
         std::string jsonRef;
         if (!extractJsonReference(node, jsonRef)) {
@@ -1305,7 +1309,7 @@ private:
                 resolveThenPopulateSchema(rootSchema, rootNode,
                         registeredNode, subschema, registeredScope,
                         registeredPath, fetchDoc, parentSchema, ownName,
-                        docCache, schemaRegistry);
+                        docCache, schemaRegistry, visitedRoots);
                 return;
             }
         }
@@ -1326,7 +1330,7 @@ private:
                 resolveThenPopulateSchema(rootSchema, registeredRoot,
                         referencedAdapter, subschema, registeredScope,
                         actualJsonPointer, fetchDoc,
-                        parentSchema, ownName, docCache, schemaRegistry);
+                        parentSchema, ownName, docCache, schemaRegistry, visitedRoots);
                 return;
             }
 
@@ -1364,7 +1368,7 @@ private:
             // TODO: Need to detect degenerate circular references
             resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
                     subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
+                    parentSchema, ownName, docCache, schemaRegistry, visitedRoots);
 
         } else if (!actualJsonPointer.empty()) {
             const AdapterType &referencedAdapter =
@@ -1376,13 +1380,18 @@ private:
 
             resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
                     subschema, referencedScope, actualJsonPointer, fetchDoc,
-                    parentSchema, ownName, docCache, schemaRegistry);
-        } else if (!extractJsonReference(rootNode, jsonRef)) {
+                    parentSchema, ownName, docCache, schemaRegistry, visitedRoots);
+        } else {
+            // A root node that is a JSON Reference can only lead back to
+            // itself when it is reached a second time
+            std::set<std::string> roots(visitedRoots);
+            if (!roots.insert(currentScope.value_or("")).second) {
+                throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
+            }
+
             resolveThenPopulateSchema(rootSchema, rootNode, rootNode,
                     subschema, currentScope, "", fetchDoc, parentSchema,
-                    ownName, docCache, schemaRegistry);
-        } else {
-            throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
+                    ownName, docCache, schemaRegistry, roots);
         }
     }
 
-- 
2.43.0


From 3126d03155a367677980939f1be8e0520b32b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 56/64] fix: type 'any' was accepted in draft 7 schemas

---
 include/valijson/schema_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index cdc4474..da3822e 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2630,8 +2630,8 @@ private:
 
         if (node.maybeString() && !node.isObject()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
-            if (type == TypeConstraint::kAny && m_version == kDraft4) {
-                throwRuntimeError("'any' type is not supported in version 4 schemas.");
+            if (type == TypeConstraint::kAny && m_version != kDraft3) {
+                throwRuntimeError("'any' type is only supported in version 3 schemas.");
             }
 
             constraint.addNamedType(type);
@@ -2641,8 +2641,8 @@ private:
             for (const AdapterType v : node.getArray()) {
                 if (v.maybeString() && !v.isObject()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
-                    if (type == TypeConstraint::kAny && m_version == kDraft4) {
-                        throwRuntimeError("'any' type is not supported in version 4 schemas.");
+                    if (type == TypeConstraint::kAny && m_version != kDraft3) {
+                        throwRuntimeError("'any' type is only supported in version 3 schemas.");
                     }
 
                     constraint.addNamedType(type);
-- 
2.43.0


From 173b750b6a02143f6979d3cb79dd270bdcb4eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 57/64] fix: custom constraints below 'contains' were given the
 path of the array

---
 include/valijson/validation_visitor.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index f1e0887..b9baa4d 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -331,8 +331,16 @@ public:
         const typename AdapterType::Array arr = m_target.asArray();
 
         bool validated = false;
+        size_t index = 0;
         for (const auto &el : arr) {
-            ValidationVisitor containsValidator(el, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
+            // Custom constraints may use the path of the array item
+            ValidationResults::Path newPath = m_path;
+            newPath.push_back({
+                ValidationResults::kArray,
+                std::to_string(index++)
+            });
+
+            ValidationVisitor containsValidator(el, newPath, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
             if (containsValidator.validateSchema(*subschema)) {
                 validated = true;
                 break;
-- 
2.43.0


From d973059f2e876fa5e8ee77911ad9839e5e338c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 58/64] fix: custom constraints were given properties that
 their additionalProperties schema does not apply to

---
 include/valijson/validation_visitor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index b9baa4d..49fed66 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1239,6 +1239,12 @@ public:
                         m_results, &propertiesMatched,
                         &validated, m_regexesCache));
 
+        // Pattern matching may have stopped early as well, in which case some
+        // properties would wrongly be regarded as additional properties
+        if (!validated && !m_results) {
+            return false;
+        }
+
         // Validate against additionalProperties subschema for any properties
         // that have not yet been matched
         const Subschema *additionalPropertiesSubschema =
-- 
2.43.0


From 7083f00aa0fe1cb9bec98ec2dd5c0c5ebbe235b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 59/64] fix: the RapidJSON loader ignored everything after a
 null character

---
 include/valijson/utils/rapidjson_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 4de1cf7..4ace266 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -25,7 +25,7 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
 #if VALIJSON_USE_EXCEPTIONS
     try {
 #endif
-        document.template Parse<rapidjson::kParseIterativeFlag>(file.c_str());
+        document.template Parse<rapidjson::kParseIterativeFlag>(file.data(), file.size());
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-- 
2.43.0


From 4fde9b2ca5e8b506efdca53026552c853b43d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 60/64] fix: exceptions thrown by the PicoJSON parser escaped
 from its loader

---
 include/valijson/utils/picojson_utils.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/valijson/utils/picojson_utils.hpp b/include/valijson/utils/picojson_utils.hpp
index 36420d2..356c9d5 100644
--- a/include/valijson/utils/picojson_utils.hpp
+++ b/include/valijson/utils/picojson_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <iostream>
 
 #ifdef _MSC_VER
@@ -25,12 +26,23 @@ inline bool loadDocument(const std::string &path, picojson::value &document)
     }
 
     // Parse schema
-    std::string err = picojson::parse(document, file);
-    if (!err.empty()) {
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        std::string err = picojson::parse(document, file);
+        if (!err.empty()) {
+            std::cerr << "PicoJson failed to parse the document:" << std::endl
+                      << "Parse error: " << err << std::endl;
+            return false;
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (const std::exception &e) {
+        // e.g. numbers that are too large to be represented
         std::cerr << "PicoJson failed to parse the document:" << std::endl
-                  << "Parse error: " << err << std::endl;
+                  << "Parse error: " << e.what() << std::endl;
         return false;
     }
+#endif
 
     return true;
 }
-- 
2.43.0


From 2ffe175b99b428c40d1150e39e401ab2dd105a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 61/64] fix: exceptions thrown by the JsonCpp parser escaped
 from its loader

---
 include/valijson/utils/jsoncpp_utils.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/valijson/utils/jsoncpp_utils.hpp b/include/valijson/utils/jsoncpp_utils.hpp
index 49a43b6..2d62230 100644
--- a/include/valijson/utils/jsoncpp_utils.hpp
+++ b/include/valijson/utils/jsoncpp_utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <iostream>
 #include <string>
 #include <memory>
@@ -24,10 +25,20 @@ inline bool loadDocument(const std::string &path, Json::Value &document)
     Json::CharReaderBuilder builder;
     const std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
     std::string err;
-    if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
-        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+#if VALIJSON_USE_EXCEPTIONS
+    try {
+#endif
+        if (!reader->parse(file.c_str(), file.c_str() + fileLength, &document, &err)) {
+            std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << err;
+            return false;
+        }
+#if VALIJSON_USE_EXCEPTIONS
+    } catch (const std::exception &e) {
+        // e.g. documents that are nested too deeply
+        std::cerr << "Jsoncpp parser failed to parse the document:" << std::endl << e.what() << std::endl;
         return false;
     }
+#endif
     return true;
 }
 
-- 
2.43.0


From 0d749f9f4a16b1bb0d256d0ee1f059c7c9ed6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 62/64] fix: the RapidJSON adapter could not be built with
 exceptions disabled

---
 include/valijson/adapters/rapidjson_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 348e57c..44f7964 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -46,7 +46,7 @@
 #include <iterator>
 #include <type_traits>
 
-#ifdef VALIJSON_USE_EXCEPTIONS
+#if VALIJSON_USE_EXCEPTIONS
     #ifdef RAPIDJSON_ASSERT
         #warning "RAPIDJSON_ASSERT already defined."
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
-- 
2.43.0


From 2ba71c189743e9055d7b3ac0cfc7fa4e3e365b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 63/64] fix: boolean subschemas in allOf and anyOf were
 rejected in YAML schemas

---
 include/valijson/schema_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index da3822e..d735d39 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1432,7 +1432,7 @@ private:
 
         int index = 0;
         for (const AdapterType schemaNode : node.asArray()) {
-            if (schemaNode.maybeObject() || (m_version == kDraft7 && schemaNode.isBool())) {
+            if (schemaNode.maybeObject() || (m_version == kDraft7 && schemaNode.maybeBool())) {
                 const std::string childPath = nodePath + "/" + std::to_string(index);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, schemaNode, currentScope,
@@ -1533,7 +1533,7 @@ private:
 
         int index = 0;
         for (const AdapterType schemaNode : node.asArray()) {
-            if (schemaNode.maybeObject() || (m_version == kDraft7 && schemaNode.isBool())) {
+            if (schemaNode.maybeObject() || (m_version == kDraft7 && schemaNode.maybeBool())) {
                 const std::string childPath = nodePath + "/" + std::to_string(index);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, schemaNode, currentScope,
-- 
2.43.0


From c302800007181f64df22801806fc4ea7f44566c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 64/64] fix: give the copy of an identified root schema its
 identifier, title and description

---
 include/valijson/schema_parser.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index d735d39..7eb0f0a 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1231,6 +1231,15 @@ private:
                 return true;
             });
             subschema.apply(copyConstraint);
+            if (subschema.hasId()) {
+                rootSchema.setSubschemaId(rootAlias, subschema.getId());
+            }
+            if (subschema.hasTitle()) {
+                rootSchema.setSubschemaTitle(rootAlias, subschema.getTitle());
+            }
+            if (subschema.hasDescription()) {
+                rootSchema.setSubschemaDescription(rootAlias, subschema.getDescription());
+            }
         }
     }
 
-- 
2.43.0

