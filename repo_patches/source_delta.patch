From 0d0464c1ddb51d039bcb4bf14a4b78b22b234cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 01/43] fix: duration returns an error instead of a wrapped
 around number of seconds

---
 transform/operations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..3c9b901 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"html"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -57,6 +58,9 @@ func (c *duration) transform(raw interface{}) (interface{}, error) {
 		return nil, err
 	}
 
+	if hours > (math.MaxInt-minutes)/60 || minutes+60*hours > (math.MaxInt-seconds)/60 {
+		return nil, errors.New("duration is out of range")
+	}
 	minutes += 60 * hours
 	seconds += 60 * minutes
 
-- 
2.43.0


From dc31fd575c395e9a9513ca9863102fa5edda5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 02/43] fix: max handles empty arrays and arrays without a
 positive value

---
 transform/operations.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transform/operations.go b/transform/operations.go
index 3c9b901..2c3e589 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -163,6 +163,9 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	if !ok {
 		return nil, errors.New("input must be an array")
 	}
+	if len(inArray) == 0 {
+		return nil, nil
+	}
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
@@ -181,7 +184,7 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 			}
 			by = float64(byInt)
 		}
-		if by > largest {
+		if i == 0 || by > largest {
 			largest = by
 			largestIndex = i
 		}
-- 
2.43.0


From fe3fcf62a546a5d26035c65fc12904e6c2ca5dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 03/43] fix: errors in the transform of an object property are
 reported instead of lost

---
 transform/transformer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..07a55cb 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -215,9 +215,9 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	var iTransformer instanceTransformer
 	switch instanceType {
 	case "object":
-		properties, _, _, err := jsonparser.Get(value, "properties")
-		if err != nil {
-			return fmt.Errorf("failed to extract properties: %v", err)
+		properties, _, _, propErr := jsonparser.Get(value, "properties")
+		if propErr != nil {
+			return fmt.Errorf("failed to extract properties: %v", propErr)
 		}
 		if string(properties) == "{}" { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
-- 
2.43.0


From a8e9c714fb6f77dfed01a71a197089e14053799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 04/43] fix: saving below a path that holds no array is an
 error, not a panic

---
 transform/transformer.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 07a55cb..18615b1 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -263,8 +263,11 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 	arraySplits := strings.Split(splits[0], "[")
 	if len(arraySplits) != 1 { // the case of an array or nested arrays with an object in them
 		var sValue []interface{}
-		if rawSlice, ok := tree[arraySplits[0]]; ok {
-			sValue = rawSlice.([]interface{})
+		if rawSlice, ok := tree[arraySplits[0]]; ok && rawSlice != nil {
+			sValue, ok = rawSlice.([]interface{})
+			if !ok {
+				return fmt.Errorf("value at %q is not a []interface{}", arraySplits[0])
+			}
 		}
 
 		newTreeMap := make(map[string]interface{})
@@ -302,8 +305,11 @@ func saveLeaf(tree map[string]interface{}, path string, value interface{}) error
 	}
 
 	var sValue []interface{}
-	if rawSlice, ok := tree[arraySplits[0]]; ok {
-		sValue = rawSlice.([]interface{})
+	if rawSlice, ok := tree[arraySplits[0]]; ok && rawSlice != nil {
+		sValue, ok = rawSlice.([]interface{})
+		if !ok {
+			return fmt.Errorf("value at %q is not a []interface{}", arraySplits[0])
+		}
 	}
 
 	newValue, err := saveInSlice(sValue, arraySplits[1:], value)
@@ -352,6 +358,9 @@ func saveInSlice(current []interface{}, arraySplits []string, value interface{})
 	}
 
 	newValue, err := saveInSlice(nested, arraySplits[1:], value)
+	if err != nil {
+		return nil, err
+	}
 	current[index] = newValue
 	return current, nil
 }
-- 
2.43.0


From 9ee4c23abc25dbe516e2c1d91dac2bcc5fea6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 05/43] fix: the last method no longer reverses its paths on
 every use

---
 transform/transform.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..f45584c 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -257,20 +257,21 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
 	var concatResult bool
+	fromList := tis.From
 	switch tis.Method {
 	case last:
 		var newFrom []*transformInstruction
 		for i := len(tis.From) - 1; i >= 0; i-- {
 			newFrom = append(newFrom, tis.From[i])
 		}
-		tis.From = newFrom
+		fromList = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range fromList {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 89346f3aa1a46027f069019fd21f385e6b7fc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 06/43] fix: a value which is no boolean falls back to the
 default like other types

---
 transform/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..f67fee9 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -521,8 +521,8 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 	if err == nil {
 		newValue, err := convert(rawValue, st.jsonType)
 		// if there is a conversion error fall through to the default
-		if newValue != nil {
-			return newValue, err
+		if err == nil && newValue != nil {
+			return newValue, nil
 		}
 	}
 
-- 
2.43.0


From c433386a288de784a76d0f84826366aae3f66738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 07/43] fix: a property name containing a dot is an error, not
 a panic

---
 transform/transformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transform/transformer.go b/transform/transformer.go
index 18615b1..e23acca 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -199,6 +199,9 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 		}
 
 		parent = parent.selectChild(sp)
+		if parent == nil {
+			return nil, fmt.Errorf("no parent found for path %q", path)
+		}
 	}
 
 	return parent, nil
-- 
2.43.0


From 47aac53e7b36044d6f9b53c4105ae30a495a65eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 08/43] fix: children of an object are not written into its
 default or the input

---
 transform/instance.go | 8 ++++----
 transform/utils.go    | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index f67fee9..f3ed713 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -332,18 +332,18 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 			return nil, err
 		}
 		if rawValue != nil {
-			var ok bool
-			newValue, ok = rawValue.(map[string]interface{})
+			rawMap, ok := rawValue.(map[string]interface{})
 			if !ok {
 				return nil, errors.New("transform returned non-object value")
 			}
+			newValue = copyMap(rawMap)
 		}
 	}
 	if newValue == nil {
 		if ot.defaultValue == nil {
 			newValue = make(map[string]interface{})
 		} else {
-			newValue = ot.defaultValue
+			newValue = copyMap(ot.defaultValue)
 		}
 	}
 
@@ -414,7 +414,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 	if ot.defaultValue == nil {
 		newValue = make(map[string]interface{})
 	} else {
-		newValue = ot.defaultValue
+		newValue = copyMap(ot.defaultValue)
 	}
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
diff --git a/transform/utils.go b/transform/utils.go
index 2d3a096..8e87713 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -74,6 +74,15 @@ func convert(raw interface{}, jsonType string) (interface{}, error) {
 	return raw, nil
 }
 
+// copyMap returns a copy of the map, the values are shared with the original.
+func copyMap(in map[string]interface{}) map[string]interface{} {
+	out := make(map[string]interface{}, len(in))
+	for k, v := range in {
+		out[k] = v
+	}
+	return out
+}
+
 func convertBoolean(raw interface{}) (interface{}, error) {
 	switch t := raw.(type) {
 	case bool:
-- 
2.43.0


From e6c5ef5309197e1285c922f4c2201068accc0f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 09/43] fix: the transform of an array is not visible to its
 siblings

---
 transform/instance.go    |  3 +++
 transform/transformer.go | 45 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/transform/instance.go b/transform/instance.go
index f3ed713..23be2d0 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -182,6 +182,9 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 			if !ok {
 				return nil, errors.New("input is neither a JSON array nor object")
 			}
+			// siblings and their defaults must not see the change
+			inMap = copyTreePath(inMap, path)
+			in = inMap
 			if err := saveInTree(inMap, path, base); err != nil {
 				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 			}
diff --git a/transform/transformer.go b/transform/transformer.go
index e23acca..7a93d9d 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -367,3 +367,48 @@ func saveInSlice(current []interface{}, arraySplits []string, value interface{})
 	current[index] = newValue
 	return current, nil
 }
+
+// copyTreePath returns a copy of the tree where every map and slice found along the path is copied as well, this allows
+// saving a value at the path without modifying the original. Everything not on the path is shared with the original.
+func copyTreePath(tree map[string]interface{}, path string) map[string]interface{} {
+	root := copyMap(tree)
+	keys := strings.Split(strings.Replace(path, "[", ".[", -1), ".")
+	if keys[0] == "$" {
+		keys = keys[1:]
+	}
+
+	var current interface{} = root
+	for _, key := range keys {
+		switch parent := current.(type) {
+		case map[string]interface{}:
+			value, ok := parent[key]
+			if !ok {
+				return root
+			}
+			current = copyValue(value)
+			parent[key] = current
+		case []interface{}:
+			index, err := strconv.Atoi(strings.Trim(key, "[]"))
+			if err != nil || index < 0 || index >= len(parent) {
+				return root
+			}
+			current = copyValue(parent[index])
+			parent[index] = current
+		default:
+			return root
+		}
+	}
+
+	return root
+}
+
+// copyValue returns a shallow copy of a map or slice, any other value is returned as is.
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		return copyMap(v)
+	case []interface{}:
+		return append(make([]interface{}, 0, len(v)), v...)
+	}
+	return value
+}
-- 
2.43.0


From 0085c79fc73f57f7fae9a901c2ff9bc8ada79386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:28 +0000
Subject: [PATCH 10/43] fix: a single value at the path of an array is
 available to its items

---
 transform/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform/instance.go b/transform/instance.go
index 23be2d0..86925ca 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -102,7 +102,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 		if !ok {
 			newValue = []interface{}{rawValue}
 		}
-		return newValue, false, nil
+		return newValue, !ok, nil
 	}
 
 	// 3. Fall back to the JSON Schema default value.
-- 
2.43.0


From 49060b57c913edec205aff45f317c61993ae0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 11/43] fix: arrays below a root array can have a transform or
 default

---
 transform/instance.go    | 18 ++++++++++++------
 transform/transformer.go |  5 +----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 86925ca..fe8ea0e 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -178,14 +178,20 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 		if path == "$" {
 			in = base
 		} else {
-			inMap, ok := in.(map[string]interface{})
-			if !ok {
+			// siblings and their defaults must not see the change
+			switch typed := in.(type) {
+			case map[string]interface{}:
+				in = copyTreePath(typed, path)
+				err = saveInTree(in.(map[string]interface{}), path, base)
+			case []interface{}:
+				// saved below the key of the root as only maps can be saved in
+				wrapped := copyTreePath(map[string]interface{}{"$": typed}, path)
+				err = saveInTree(wrapped, path, base)
+				in = wrapped["$"]
+			default:
 				return nil, errors.New("input is neither a JSON array nor object")
 			}
-			// siblings and their defaults must not see the change
-			inMap = copyTreePath(inMap, path)
-			in = inMap
-			if err := saveInTree(inMap, path, base); err != nil {
+			if err != nil {
 				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 			}
 		}
diff --git a/transform/transformer.go b/transform/transformer.go
index 7a93d9d..48ada8a 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -372,10 +372,7 @@ func saveInSlice(current []interface{}, arraySplits []string, value interface{})
 // saving a value at the path without modifying the original. Everything not on the path is shared with the original.
 func copyTreePath(tree map[string]interface{}, path string) map[string]interface{} {
 	root := copyMap(tree)
-	keys := strings.Split(strings.Replace(path, "[", ".[", -1), ".")
-	if keys[0] == "$" {
-		keys = keys[1:]
-	}
+	keys := strings.Split(strings.Replace(strings.TrimPrefix(path, "$."), "[", ".[", -1), ".")
 
 	var current interface{} = root
 	for _, key := range keys {
-- 
2.43.0


From e4bed7336f62b27a95cd5b6855cba44cb064d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 12/43] fix: an XML text which is no boolean falls back to the
 default instead of false

---
 transform/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 8e87713..1b4273b 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -91,7 +91,11 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		if t == "" {
 			return false, nil
 		}
-		return strconv.ParseBool(t)
+		value, err := strconv.ParseBool(t)
+		if err != nil {
+			return nil, err
+		}
+		return value, nil
 	case int:
 		return t > 0, nil
 	case float32:
-- 
2.43.0


From df240bc09f73d9735adde5705184f9b2b69a5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 13/43] fix: operations get XML texts which are not of the type
 of the field

---
 transform/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index f45584c..45b470c 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -132,6 +132,10 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
 		value, err = convert(xmlNode[0].InnerText(), fieldType)
+		if err != nil && len(ti.Operations) > 0 {
+			// as for JSON operations like duration expect the unconverted value
+			value = xmlNode[0].InnerText()
+		}
 	} else {
 		switch fieldType {
 		case "array", "object":
-- 
2.43.0


From 804fd0d72c9b1b17292bb0bd5a504d58fe53343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 14/43] fix: a missing or invalid xmlPath no longer panics

---
 transform/transform.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 45b470c..9c524d6 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -113,15 +113,18 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, errors.New("Error converting input to *xmlquery.Node")
 	}
 
-	xmlNode := xmlquery.Find(node, path)
+	if path == "" {
+		return nil, nil
+	}
+	xmlNode, err := xmlquery.QueryAll(node, path)
+	if err != nil {
+		return nil, fmt.Errorf("invalid xmlPath %q: %v", path, err)
+	}
 	if xmlNode == nil {
 		return nil, nil
 	}
 
-	var (
-		value interface{}
-		err   error
-	)
+	var value interface{}
 
 	// num elements that have a child element
 	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
-- 
2.43.0


From 9e4d0d16adeab4ac61244cfa173fea717e386216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 15/43] fix: a type name cannot make a schema share the cache
 entry of another file

---
 jsonschema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..5c90065 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -99,7 +99,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 	if err != nil {
 		return nil, err
 	}
-	schemaKey := schemaPath + "|" + oneOfType + "|" + strconv.FormatBool(flatten)
+	schemaKey := strconv.Quote(schemaPath) + "|" + strconv.Quote(oneOfType) + "|" + strconv.FormatBool(flatten)
 	return schemaCache.Load(schemaKey, func() (*Schema, error) {
 		data, err := os.ReadFile(schemaPath)
 		if err != nil {
-- 
2.43.0


From 708ad8b881568b38d12d622bbc2deba80abcdaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 16/43] fix: keywords without a field in Instance survive a
 reference to a file

---
 jsonschema/reference.go | 28 ++++++++++++++++++++++++++++
 jsonschema/schema.go    |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index ecee038..7852367 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -205,6 +205,10 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", refPath, err)
 		}
+		source, err = addMissingKeywords(source, schema.raw)
+		if err != nil {
+			return nil, fmt.Errorf("failed to add keywords of schema from file %q: %v", refPath, err)
+		}
 	}
 
 	var err error
@@ -225,3 +229,27 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 
 	return data, nil
 }
+
+// addMissingKeywords adds the root level keywords of raw which are missing from the schema, such as default or transform.
+func addMissingKeywords(schema, raw json.RawMessage) (json.RawMessage, error) {
+	var present map[string]json.RawMessage
+	if err := json.Unmarshal(schema, &present); err != nil {
+		return nil, err
+	}
+
+	err := jsonparser.ObjectEach(raw, func(key []byte, value []byte, dataType jsonparser.ValueType, offset int) error {
+		if _, ok := present[string(key)]; ok {
+			return nil
+		}
+		if dataType == jsonparser.String {
+			value = []byte(`"` + string(value) + `"`) // the value is still escaped
+		}
+		var err error
+		schema, err = jsonparser.Set(schema, value, string(key))
+		return err
+	})
+	if err != nil {
+		return nil, err
+	}
+	return schema, nil
+}
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 5c90065..6662f90 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -61,6 +61,9 @@ type Schema struct {
 	Instance
 
 	Validator Validator `json:"-"`
+
+	// raw is the dereferenced schema, it holds the keywords which have no field in Instance.
+	raw json.RawMessage
 }
 
 // Validate will check that the given json is validate according the schema.
@@ -127,6 +130,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		s := Schema{
 			Instance:  sj,
 			Validator: v,
+			raw:       data,
 		}
 
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
-- 
2.43.0


From e8e8ed0048c8e3e94dec6a47fd183bc43760356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 17/43] fix: the texts beside a reference are not escaped a
 second time

---
 jsonschema/reference.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 7852367..30fdfdc 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -65,10 +65,7 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 					keyPath := destPath
 					keyPath = append(keyPath, string(key))
 					if dataType == jsonparser.String {
-						value, err = json.Marshal(string(value))
-						if err != nil {
-							return fmt.Errorf("failed to marshal string %q to update data with ref %q at path %v key %q: %w", value, ref, refPath, key, err)
-						}
+						value = []byte(`"` + string(value) + `"`) // the value is still escaped
 					}
 					data, err = jsonparser.Set(data, value, keyPath...)
 					if err != nil {
-- 
2.43.0


From a095ac3ba292028e3e58e0e3bd5888ee5f79a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 18/43] fix: without flattening all allOf branches of a schema
 without properties are merged

---
 jsonschema/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 6662f90..a77c7f0 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -136,10 +136,11 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
 		// that conflict. The legit use case for that is rare but it is in the spec. Rather than merge these the walk
 		// should go through each set of files but this makes the raw walking much more complicated.
+		hasProperties := s.Properties != nil
 		for _, all := range sj.AllOf {
 			// If not flattening, check that the schema also has properties in order to avoid issues with schemas that only
 			// contain oneOf/allOf references.
-			if !flatten && s.Properties != nil {
+			if !flatten && hasProperties {
 				continue
 			}
 			s.Properties = mergeProperties(s.Properties, all.Properties)
-- 
2.43.0


From 5d51dbdfa870e0cabc63497ea14aa95e11c7b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 19/43] fix: a document followed by other data is not valid

---
 jsonschema/validator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonschema/validator.go b/jsonschema/validator.go
index 6188a86..6eacb36 100644
--- a/jsonschema/validator.go
+++ b/jsonschema/validator.go
@@ -2,6 +2,7 @@ package jsonschema
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"path/filepath"
 	"runtime"
@@ -60,6 +61,10 @@ func (v *validator) Validate(raw json.RawMessage) (bool, error) {
 	if err != nil {
 		return false, err
 	}
+	// the loader stops after the first JSON value
+	if !json.Valid(raw) {
+		return false, errors.New("invalid JSON: data after the top-level value")
+	}
 	if len(result.Errors()) > 0 {
 		sort.Slice(result.Errors(), func(i, j int) bool {
 			return result.Errors()[i].String() < result.Errors()[j].String()
-- 
2.43.0


From ad90802297f7137bb2b9913f7f539ec70f70c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 20/43] fix: Avro timestamps of times outside 1678 to 2262

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..e58b5f3 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -56,7 +56,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -75,7 +75,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From 44d38120ba4634f0ff49b5b2adaf8d72d6fedeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:17 +0000
Subject: [PATCH 21/43] fix: undeclared type for optional objects without
 properties (NoNestedStructs with Pointers)

---
 generate/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..f78013a 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -433,7 +433,7 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 	default:
 		// TODO: use additionalProperties JSON schema value to more intelligently create the target type\
 		// when no nested struct
-		if ns := nestedStructs[ef.jsonType]; ns != nil && len(ns.fields) == 0 && !ns.array {
+		if ns := nestedStructs[strings.TrimPrefix(ef.jsonType, "*")]; ns != nil && len(ns.fields) == 0 && !ns.array {
 			goType = "map[string]string"
 		} else {
 			goType = ef.jsonType
-- 
2.43.0


From 757b8fb9f7702ffef5d63c6630868bc0634b4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 22/43] fix: quotes, backslashes and backquotes in description
 tags

---
 generate/avro.go   |  7 ++++++-
 generate/struct.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 071a13d..5c8c204 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/actgardner/gogen-avro/v7/generator"
@@ -240,7 +241,11 @@ func parseStructTag(literal *ast.BasicLit) (name, description string, omitEmpty
 	if literal == nil {
 		return
 	}
-	tag := reflect.StructTag(strings.Trim(literal.Value, "`"))
+	value, err := strconv.Unquote(literal.Value)
+	if err != nil {
+		value = literal.Value
+	}
+	tag := reflect.StructTag(value)
 
 	description = tag.Get("description")
 	jsonValue := tag.Get("json")
diff --git a/generate/struct.go b/generate/struct.go
index f78013a..d892e1e 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/GannettDigital/jstransform/jsonschema"
@@ -42,9 +43,14 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-		description = fmt.Sprintf(`description:"%s"`, strings.Split(ef.description, "\n")[0])
+		description = fmt.Sprintf(`description:%q`, strings.Split(ef.description, "\n")[0])
+	}
+	structTag := strings.Trim(strings.Join([]string{jsonTag, description}, " "), " ")
+	if strings.Contains(structTag, "`") {
+		structTag = strconv.Quote(structTag) + "\n" // a raw string can't contain a backquote
+	} else {
+		structTag = fmt.Sprintf("`%s`\n", structTag)
 	}
-	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
 	if !descriptionAsStructTag && ef.description != "" {
 		for _, line := range strings.Split(ef.description, "\n") {
-- 
2.43.0


From 2bb5e1463f8293b8a8c5a6264d0ab9ba62ad92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 23/43] fix: quotes and backslashes in GraphQL descriptions

---
 generate/graphql.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..7352620 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -275,7 +275,7 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 	if strings.HasPrefix(description, "DEPRECATED:") {
 		// First line is the deprecation reason and the rest is the normal description.
 		lines := strings.Split(description, "\n")
-		attribute = fmt.Sprintf(" @deprecated(reason: %q)", strings.TrimSpace(strings.TrimPrefix(lines[0], "DEPRECATED:")))
+		attribute = fmt.Sprintf(" @deprecated(reason: %s)", graphqlString(strings.TrimSpace(strings.TrimPrefix(lines[0], "DEPRECATED:"))))
 		description = strings.TrimSpace(strings.Join(lines[1:], "\n"))
 	}
 	if description != "" {
@@ -744,16 +744,21 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 	return graphqlArguments, graphqlType
 }
 
+// graphqlString takes a string and returns it as a GraphQL string with the necessary characters escaped.
+func graphqlString(value string) string {
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\r", `\r`, "\t", `\t`).Replace(value) + `"`
+}
+
 // graphqlComment takes a string and returns GraphQL comment syntax.
 func graphqlComment(prefix, description string) string {
 	if strings.IndexRune(description, '\n') < 0 {
-		return fmt.Sprintf("%s\"%s\"\n", prefix, description)
+		return fmt.Sprintf("%s%s\n", prefix, graphqlString(description))
 	}
 	// Multi-line descriptions get the """ comment syntax.
 	newDescription := prefix + `"""` + "\n"
 	for _, line := range strings.Split(description, "\n") {
 		if line != "" {
-			newDescription += prefix + line
+			newDescription += prefix + strings.ReplaceAll(line, `"""`, `\"""`)
 		}
 		newDescription += "\n"
 	}
-- 
2.43.0


From c5dac5f49fbe07ec810b22680bc17e2d71a1c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:58 +0000
Subject: [PATCH 24/43] fix: fields that may be null were declared non-null in
 GraphQL

---
 generate/graphql.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 7352620..3fbf913 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -477,8 +477,10 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 
 		// Generate proper GraphQL type name target, taking into account renaming.
 		gqlTypeList := []string{gqlTypeName}
+		structTypeList := []string{structType}
 		if slices.Contains(i.Type, "null") {
 			gqlTypeList = append(gqlTypeList, "null")
+			structTypeList = append(structTypeList, "null")
 		}
 
 		// Special case for when the properties field of an object is `{}`. Put `Any` instead of the struct name and
@@ -488,7 +490,7 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 			obj.buildType = "ignored"
 		}
 
-		return gen.addField([]string{name}, gqlTypeList, jsonschema.Instance{Description: i.Description, Type: []string{structType}, Target: i.Target, GraphQLArguments: i.GraphQLArguments})
+		return gen.addField([]string{name}, gqlTypeList, jsonschema.Instance{Description: i.Description, Type: structTypeList, Target: i.Target, GraphQLArguments: i.GraphQLArguments})
 	}
 
 	return gen.addField([]string{name}, nil, i)
@@ -627,7 +629,7 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
 				if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
-					if !(f.nullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
+					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
 					}
 				}
@@ -637,15 +639,14 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		}
 		if slices.Contains(inst.Type, "string") && inst.Format == "date-time" {
 			f.jsonType = "date-time"
-			f.nullable = true
 		}
 
 		switch f.jsonType {
 		case "array":
 			f.jsonType = ""
-			f.nullable = false
 			f.array = true
 			f.arrayNullable = f.nullable
+			f.nullable = false
 
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
@@ -719,7 +720,7 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 	} else {
 		graphqlType = ef.jsonType
 	}
-	if graphqlType != "DateTime" && (regularType && !ef.nullable || required || !pointers) {
+	if graphqlType != "DateTime" && !ef.nullable && (regularType || required || !pointers) {
 		if ef.jsonType != "Any" {
 			graphqlType += "!"
 		}
-- 
2.43.0


From 623eedf30826ad21e9fc8468ffb4033f6d301f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:20 +0000
Subject: [PATCH 25/43] fix: overridden GraphQL types of array items

---
 generate/graphql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 3fbf913..ebae0d6 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -627,7 +627,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 					f.jsonType = jsonType
 				}
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
-				if f.target == "" && inst.Target != "" {
+				if f.target == "" && inst.Target != "" && jsonType != "graphql-hydration" {
+					f.target = inst.Target // the array itself is added when writing the type
+				} else if f.target == "" && inst.Target != "" {
 					f.target = "[" + inst.Target + "]"
 					if !(f.arrayNullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
 						f.target += "!"
-- 
2.43.0


From a4a80cf8563d0f5802e989b807b896fccc9098bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:29 +0000
Subject: [PATCH 26/43] fix: fields with the same name were dropped and
 repeated depending on map order

---
 generate/graphql.go | 21 ++++++++++-----------
 generate/struct.go  | 19 +++++++++----------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index ebae0d6..5e986e0 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -313,21 +313,20 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 	return nil
 }
 
-// Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
+// Sorted will return the fields in a sorted list. The sort is a string sort on the names, fields with the same name are
+// sorted by their JSON name.
 func (efs gqlExtractedFields) Sorted() []*gqlExtractedField {
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*gqlExtractedField, len(efs))
+	sorted := make([]*gqlExtractedField, 0, len(efs))
 	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+		sorted = append(sorted, f)
 	}
 
-	sortedKeys.Sort()
-
-	sorted := make([]*gqlExtractedField, 0, len(sortedKeys))
-	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
-	}
+	sort.Slice(sorted, func(i, j int) bool {
+		if sorted[i].name != sorted[j].name {
+			return sorted[i].name < sorted[j].name
+		}
+		return sorted[i].jsonName < sorted[j].jsonName
+	})
 
 	return sorted
 }
diff --git a/generate/struct.go b/generate/struct.go
index d892e1e..020267a 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -108,21 +108,20 @@ func (efs extractedFields) IncludeTime() bool {
 	return false
 }
 
-// Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
+// Sorted will return the fields in a sorted list. The sort is a string sort on the names, fields with the same name are
+// sorted by their JSON name.
 func (efs extractedFields) Sorted() []*extractedField {
 	var sorted []*extractedField
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*extractedField)
 	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+		sorted = append(sorted, f)
 	}
 
-	sortedKeys.Sort()
-
-	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
-	}
+	sort.Slice(sorted, func(i, j int) bool {
+		if sorted[i].name != sorted[j].name {
+			return sorted[i].name < sorted[j].name
+		}
+		return sorted[i].jsonName < sorted[j].jsonName
+	})
 
 	return sorted
 }
-- 
2.43.0


From 1f14cc28058f1ead983b7d78cee8a82b04d42888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 27/43] fix: a property with the name of an array's total field
 was replaced or refused depending on map order

---
 generate/graphql.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 5e986e0..845c11b 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -63,6 +63,7 @@ type gqlExtractedField struct {
 	implements     string
 	target         string
 	requiredFields map[string]bool
+	totals         map[string]bool // the added total fields, with whether a property of the same name is required
 	args           BuildArgs
 }
 
@@ -618,6 +619,13 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 			arguments:   inst.GraphQLArguments,
 			nullable:    slices.Contains(inst.Type, "null"),
 		}
+		if required, ok := gen.totals[f.jsonName]; ok {
+			// A property takes precedence over the total of an array.
+			delete(gen.totals, f.jsonName)
+			delete(gen.fields, f.jsonName)
+			gen.fieldOrder = slices.Delete(gen.fieldOrder, slices.Index(gen.fieldOrder, f.jsonName), slices.Index(gen.fieldOrder, f.jsonName)+1)
+			gen.requiredFields[f.jsonName] = required
+		}
 		// Second processing of an array type
 		if exists, ok := gen.fields[f.jsonName]; ok {
 			f = exists
@@ -649,13 +657,17 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 			f.arrayNullable = f.nullable
 			f.nullable = false
 
+			totalName := "total" + f.name
+			if _, ok := gen.fields[totalName]; ok {
+				// There is a property of this name.
+				break
+			}
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
 			if strings.HasPrefix(f.description, "DEPRECATED:") {
 				lines := strings.Split(f.description, "\n")
 				totalDescription = lines[0] + "\n" + totalDescription
 			}
-			totalName := "total" + f.name
 			gen.fields[totalName] = &gqlExtractedField{
 				description: totalDescription,
 				name:        exportedName(totalName),
@@ -666,6 +678,10 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				arguments:   nil,
 			}
 			gen.fieldOrder = append(gen.fieldOrder, totalName)
+			if gen.totals == nil {
+				gen.totals = make(map[string]bool)
+			}
+			gen.totals[totalName] = gen.requiredFields[totalName]
 			gen.requiredFields[totalName] = true
 		case "object":
 			// Special case for when the properties field of an object is `{}`. Put `Any` instead of an empty field name.
-- 
2.43.0


From dc107b6de6b263b2bb15d4ab96cf974bc19dc101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 28/43] fix: descriptions with control characters gave Avro
 schemas that are not JSON

---
 generate/avro.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 5c8c204..837d9ee 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -262,6 +262,17 @@ func parseStructTag(literal *ast.BasicLit) (name, description string, omitEmpty
 	return
 }
 
+// avroString returns the value as a JSON string.
+func avroString(value string) string {
+	buf := &bytes.Buffer{}
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(value); err != nil { // impossible for a string
+		return strconv.Quote(value)
+	}
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 // writeAvroStruct returns an apply function intended to be called for the start of each node.
 // The corresponding Post function will be called after the children of the node have been traversed.
 func writeAvroStruct(cfg avroConfig, name, defaultFields string) astutil.ApplyFunc {
@@ -269,9 +280,9 @@ func writeAvroStruct(cfg avroConfig, name, defaultFields string) astutil.ApplyFu
 		if c.Name() == "Node" {
 			var jsonNamespace string
 			if len(cfg.namespace) != 0 {
-				jsonNamespace = fmt.Sprintf(`"namespace":%q,`, strings.Join(cfg.namespace, "."))
+				jsonNamespace = fmt.Sprintf(`"namespace":%s,`, avroString(strings.Join(cfg.namespace, ".")))
 			}
-			if _, err := fmt.Fprintf(cfg.writer, `"name":%q,%s"type":"record","fields":[%s`, name, jsonNamespace, defaultFields); err != nil {
+			if _, err := fmt.Fprintf(cfg.writer, `"name":%s,%s"type":"record","fields":[%s`, avroString(name), jsonNamespace, defaultFields); err != nil {
 				return false
 			}
 			return true
@@ -326,12 +337,12 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 
 	avroType := fmt.Sprintf(`"type":%s`, convertToAvroType(cfg, f.Type, name, omitEmpty))
 
-	avroName := fmt.Sprintf(`"name":%q`, name)
+	avroName := fmt.Sprintf(`"name":%s`, avroString(name))
 	if len(cfg.namespace) != 0 {
-		avroName += fmt.Sprintf(`,"namespace":%q`, strings.Join(cfg.namespace, "."))
+		avroName += fmt.Sprintf(`,"namespace":%s`, avroString(strings.Join(cfg.namespace, ".")))
 	}
 	if tagDescription != "" {
-		avroName += fmt.Sprintf(`,"doc":%q`, tagDescription)
+		avroName += fmt.Sprintf(`,"doc":%s`, avroString(tagDescription))
 	}
 
 	fmt.Fprintf(cfg.writer, "{%s,%s}", avroName, avroType)
-- 
2.43.0


From 32aa829d880ce05abb494b5db2aa4581a87e0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 29/43] fix: misplaced commas in Avro schemas when fields of
 embedded structs are left out

---
 generate/avro.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 837d9ee..c8f1e06 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -361,11 +361,20 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 			fieldMap[f.Names[0].Name] = true
 		}
 	}
-	for i, f := range list.List {
-		processed := writeAvroField(cfg, f, fieldMap)
-		if processed && i+1 != length {
-			fmt.Fprint(cfg.writer, ",")
+	writer := cfg.writer
+	var written bool
+	for _, f := range list.List {
+		buf := &bytes.Buffer{}
+		cfg.writer = buf
+		// a skipped field, or an embedded struct with nothing but skipped fields, needs no comma
+		if !writeAvroField(cfg, f, fieldMap) || buf.Len() == 0 {
+			continue
+		}
+		if written {
+			fmt.Fprint(writer, ",")
 		}
+		written = true
+		fmt.Fprint(writer, buf.String())
 	}
 }
 
-- 
2.43.0


From 6d9ed7f5f64e96693eea1e5660148ecb138d47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 30/43] fix: fields of a struct embedded twice removed were
 repeated in Avro schemas

---
 generate/avro.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index c8f1e06..de3fb57 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -319,7 +319,14 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		}
 		newcfg := cfg
 		newcfg.namespace = append(cfg.namespace, t.Name)
-		newcfg.excludeFields = fieldMap
+		// Fields at this level and those outside of it replace embedded ones
+		newcfg.excludeFields = make(map[string]bool, len(cfg.excludeFields)+len(fieldMap))
+		for name := range cfg.excludeFields {
+			newcfg.excludeFields[name] = true
+		}
+		for name := range fieldMap {
+			newcfg.excludeFields[name] = true
+		}
 		writeEmbeddedStructFields(newcfg)
 		return true
 	}
-- 
2.43.0


From 94b49e36499c8521b2094bd6b988e0f5313fe571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 31/43] fix: Avro code for structs that embed a renamed struct

---
 generate/avro.go         | 15 ++++++++++++++-
 generate/avro_helpers.go |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index de3fb57..c87a5ad 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -188,6 +188,19 @@ func parseGoStruct(name, path string) (*ast.TypeSpec, error) {
 	return t, nil
 }
 
+// parseEmbeddedStruct parses the file named after an embedded struct or, as structs can be renamed, else all go files of
+// the directory.
+func parseEmbeddedStruct(name, dir string) (*ast.TypeSpec, error) {
+	spec, err := parseGoStruct(name, filepath.Join(dir, structToFilename(name)))
+	if err != nil {
+		if renamed, dirErr := parseGoStruct(name, dir); dirErr == nil {
+			return renamed, nil
+		}
+		return nil, err
+	}
+	return spec, nil
+}
+
 // filterPackage will filter all the go files found at the path returning a *ast.File containing name.
 func filterPackage(name, path string) (*ast.File, error) {
 	fileSet := token.NewFileSet()
@@ -387,7 +400,7 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 
 func writeEmbeddedStructFields(cfg avroConfig) {
 	structName := cfg.namespace[len(cfg.namespace)-1]
-	spec, err := parseGoStruct(structName, filepath.Join(cfg.dir, structToFilename(structName)))
+	spec, err := parseEmbeddedStruct(structName, cfg.dir)
 	if err != nil {
 		fmt.Fprint(cfg.writer, `{"type":"embedded struct not found"}`)
 		return
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index e58b5f3..bf377e8 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -508,7 +508,7 @@ func mapFields(list *ast.FieldList, srcDir string) (map[string]*ast.Field, error
 				continue
 			}
 			embedName := t.Name
-			embedStruct, err := parseGoStruct(embedName, filepath.Join(srcDir, structToFilename(embedName)))
+			embedStruct, err := parseEmbeddedStruct(embedName, srcDir)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse embedded go struct %q: %v", embedName, err)
 			}
-- 
2.43.0


From 6a21abd5e4b3ca7a146e7caf054380b8feac4f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:35 +0000
Subject: [PATCH 32/43] fix: Avro code for lists of structs with pointers, maps
 and lists of such

---
 generate/avro_helpers.go | 45 ++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index bf377e8..4176709 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -547,32 +547,31 @@ func printFields(list *ast.FieldList) string {
 		}
 		name := f.Names[0]
 
-		switch fType := f.Type.(type) {
-		case *ast.Ident:
-			out += fmt.Sprintf("%s %s %s\n", name, fType.Name, f.Tag.Value)
-		case *ast.ArrayType:
-			// Handle the case where an array of structs is inside an array of structs.
-			str, ok := fType.Elt.(*ast.StructType)
-			if ok {
-				out += fmt.Sprintf("%s []struct{\n%s} %s\n", name, printFields(str.Fields), f.Tag.Value)
-				continue
-			}
+		out += fmt.Sprintf("%s %s %s\n", name, printType(f.Type), f.Tag.Value)
+	}
+	return out
+}
 
-			ident, ok := fType.Elt.(*ast.Ident)
-			if !ok {
-				return "unknown array type"
-			}
-			out += fmt.Sprintf("%s []%s %s\n", name, ident.Name, f.Tag.Value)
-		case *ast.SelectorExpr:
-			if fType.Sel.Name != "Time" {
-				return fmt.Sprintf(`unsupported type %q`, fType.Sel.Name)
-			}
-			out += fmt.Sprintf("%s time.Time %s\n", name, f.Tag.Value)
-		case *ast.StructType:
-			out += fmt.Sprintf("%s struct{\n%s} %s\n", name, printFields(fType.Fields), f.Tag.Value)
+// printType outputs the type of a field as it was read from the original code.
+func printType(expr ast.Expr) string {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t.Name
+	case *ast.StarExpr:
+		return "*" + printType(t.X)
+	case *ast.ArrayType:
+		return "[]" + printType(t.Elt)
+	case *ast.MapType:
+		return fmt.Sprintf("map[%s]%s", printType(t.Key), printType(t.Value))
+	case *ast.StructType:
+		return fmt.Sprintf("struct{\n%s}", printFields(t.Fields))
+	case *ast.SelectorExpr:
+		if t.Sel.Name == "Time" {
+			return "time.Time"
 		}
+		return fmt.Sprintf(`unsupported type %q`, t.Sel.Name)
 	}
-	return out
+	return fmt.Sprintf("unsupported type %T", expr)
 }
 
 // writeCodeTemplate will execute a template from src with values and write to path.
-- 
2.43.0


From 1de90b152c365058b174b77726ff4ee31d9fe30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 33/43] fix: Avro code for fields named like methods of the
 Avro structs

---
 generate/avro_helpers.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 4176709..db31eb5 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -281,7 +281,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// check for a nil pointer
 		if _, ok := generatedField.Type.(*ast.StarExpr); ok {
 			return mappedFields{
-				fieldMapping:  fm.generateNullableFieldValue(name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
+				fieldMapping:  fm.generateNullableFieldValue(generatedField.Names[0].Name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
 				preProcessing: mappedField.preProcessing,
 			}, nil
 		}
@@ -343,7 +343,8 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// If not a built in type it could be a special Avro Union type
 		if tmpl, ok := fm.unionTemplates[typeName]; ok {
 			buf := &bytes.Buffer{}
-			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + name}
+			value := "z." + prefix + generatedField.Names[0].Name
+			format := map[string]string{"packageName": fm.packageName, "value": value}
 			// special case for converting time fields
 			fieldType := generatedField.Type
 			pointer := false
@@ -352,7 +353,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 				fieldType = p.X
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
-				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
+				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(%s)", value)}
 			}
 			if err := tmpl.Execute(buf, format); err != nil {
 				return mappedFields{}, fmt.Errorf("failed union template: %v", err)
@@ -451,7 +452,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		}, nil
 	}
 
-	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+name+".", avroFields)
+	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+generatedField.Names[0].Name+".", avroFields)
 	if err != nil {
 		return mappedFields{}, err
 	}
-- 
2.43.0


From abb4e2e87abe692ccd1292cc2df9c67eb22da467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 34/43] fix: fields with names that begin with avro were left
 out of Avro records

---
 generate/avro_helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index db31eb5..d567a15 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -247,7 +247,7 @@ func (fm *avroFieldMapper) generateFields(prefix string, avroFields *ast.FieldLi
 			return mappedFields{}, errors.New("unknown embedded field in Avro struct")
 		}
 		name := f.Names[0].Name
-		if strings.HasPrefix(name, "Avro") { // skip metadata fields which are populated in the templated code
+		if name == "AvroWriteTime" || name == "AvroDeleted" { // skip metadata fields which are populated in the templated code
 			continue
 		}
 		generatedField, ok := generatedFieldsMap[name]
-- 
2.43.0


From c58810571584ed69b92efc540c5f7fc04d578800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 35/43] fix: Avro code for values that may be null

---
 generate/avro.go         |  3 ++-
 generate/avro_helpers.go | 30 ++++++++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index c87a5ad..c4fe08b 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -355,7 +355,8 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		name = tagName
 	}
 
-	avroType := fmt.Sprintf(`"type":%s`, convertToAvroType(cfg, f.Type, name, omitEmpty))
+	_, pointer := f.Type.(*ast.StarExpr)
+	avroType := fmt.Sprintf(`"type":%s`, convertToAvroType(cfg, f.Type, name, omitEmpty || pointer))
 
 	avroName := fmt.Sprintf(`"name":%s`, avroString(name))
 	if len(cfg.namespace) != 0 {
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index d567a15..f3d4add 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -312,10 +312,10 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		typeName := f.Name
 		switch typeName { // handle builtin types
 		case "string", "bool", "float64":
-			return mappedFields{fieldMapping: "z." + prefix + generatedField.Names[0].Name, name: prefix + name}, nil
+			return mappedFields{fieldMapping: scalarValue("z."+prefix+generatedField.Names[0].Name, typeName, generatedField.Type), name: prefix + name}, nil
 		case "int64":
 			// special case for converting time fields and arrays of times
-			m := mappedFields{fieldMapping: "z." + prefix + generatedField.Names[0].Name, name: prefix + name}
+			m := mappedFields{fieldMapping: scalarValue("z."+prefix+generatedField.Names[0].Name, typeName, generatedField.Type), name: prefix + name}
 			fieldType := generatedField.Type
 			pointer := false
 			if p, ok := generatedField.Type.(*ast.StarExpr); ok {
@@ -354,6 +354,8 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
 				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(%s)", value)}
+			} else if pointer { // the value is only used if it is not nil
+				format["value"] = "*" + value
 			}
 			if err := tmpl.Execute(buf, format); err != nil {
 				return mappedFields{}, fmt.Errorf("failed union template: %v", err)
@@ -389,6 +391,30 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 	return mappedFields{}, fmt.Errorf("unhandled type for field %q", prefix+name)
 }
 
+// scalarValue returns the code for a value that is not nullable in the Avro struct. A nil pointer to a bool is false, nil
+// pointers in a list are left out.
+func scalarValue(value, typeName string, generatedType ast.Expr) string {
+	switch t := generatedType.(type) {
+	case *ast.StarExpr:
+		if typeName == "bool" {
+			return fmt.Sprintf("%s != nil && *%s", value, value)
+		}
+	case *ast.ArrayType:
+		if _, ok := t.Elt.(*ast.StarExpr); ok {
+			return fmt.Sprintf(`func() []%s {
+	var s []%s
+	for _, v := range %s {
+		if v != nil {
+			s = append(s, *v)
+		}
+	}
+	return s
+}()`, typeName, typeName, value)
+		}
+	}
+	return value
+}
+
 func (fm *avroFieldMapper) generateNullableFieldValue(name, prefix, fieldTypeName, fieldValue string) string {
 	returnType := fmt.Sprintf("*%s.%s", fm.packageName, fieldTypeName)
 	return fmt.Sprintf(
-- 
2.43.0


From 1a1c33100bd589183ae6e67dec859cb8a65016fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:34 +0000
Subject: [PATCH 36/43] fix: writing Avro panicked for null items in lists of
 objects

---
 generate/avro_helpers.go  |  3 +++
 generate/avro_template.go | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index f3d4add..ec0feb6 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -451,8 +451,10 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		} else {
 			structDef = mappedStruct.name
 		}
+		var pointers string
 		if _, ok := aType.Elt.(*ast.StarExpr); ok {
 			structDef = "*" + structDef
+			pointers = "true"
 		}
 
 		var funcPrefix string
@@ -464,6 +466,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 			"funcName":     funcName,
 			"typeID":       fmt.Sprintf("%s.%s", fm.packageName, typeName),
 			"structDef":    structDef,
+			"pointers":     pointers,
 			"structFields": mappedStruct.fieldMapping,
 		}
 
diff --git a/generate/avro_template.go b/generate/avro_template.go
index 288e764..ee479e6 100644
--- a/generate/avro_template.go
+++ b/generate/avro_template.go
@@ -222,12 +222,24 @@ func Example{{ .name }}BulkAvroWriter() {
 `
 	avroStructSliceTemplate = `
 {{ .funcName }} := func(in []{{ .structDef }}) []*{{ .typeID }} {
+{{- if .pointers }}
+	converted := make([]*{{ .typeID }}, 0, len(in))
+	for _, z := range in {
+		if z == nil {
+			continue
+		}
+		converted = append(converted, &{{ .typeID }} {
+			{{ .structFields }}
+		})
+	}
+{{- else }}
 	converted := make([]*{{ .typeID }}, len(in))
 	for i, z := range in {
 		converted[i] = &{{ .typeID }} {
 			{{ .structFields }}
 		}
 	}
+{{- end }}
 	return converted
 }
 `
-- 
2.43.0


From 08587f17e3ae82e28b0cb42d3b0f8d03c8cc222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 37/43] fix: fields of shared schemas were ambiguous in branch
 structs when the root schema has properties

---
 generate/generate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generate/generate.go b/generate/generate.go
index 79cd534..f7148c6 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -155,6 +155,11 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		}
 	}
 
+	if len(properties) > 0 {
+		// the struct of the root schema is the last one and has the fields of the others
+		embeds = embeds[len(embeds)-1:]
+	}
+
 	for _, oneOfPath := range oneOfTypes {
 		name := strings.Split(filepath.Base(oneOfPath), ".")[0]
 		if newName, ok := args.StructNameMap[name]; ok {
-- 
2.43.0


From 588599a51e46bc66eef7cd259cc1630c8e44173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 38/43] fix: GraphQL types of branches got the fields of the
 shared schemas of other branches

---
 generate/graphql.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 845c11b..6f0e124 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -191,6 +191,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			}
 			generated.rootStruct.implements = implements
 		}
+		common := common[:len(common):len(common)] // those of a branch are not those of the next one
 		if args.EmbedAllOf && len(oneOfSchema.AllOf) != 0 {
 			for _, allOf := range oneOfSchema.AllOf {
 				baseName := strings.Split(filepath.Base(allOf.FromRef), ".")[0]
-- 
2.43.0


From dc62752930cc6b7f93c4ab72b98e82aa3f0de474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 39/43] fix: GraphQL types of branches implemented an interface
 named after the schema file instead of the declared one

---
 generate/graphql.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 6f0e124..ff4dfec 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -183,11 +183,11 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 		if len(schema.AllOf) != 0 {
 			// Only an implementation of an interface if there was also an AllOf schema.
-			var implements string
-			if newName, ok := args.GraphQLTypeNameMap[name]; ok {
+			var implements string // the name of the interface written above
+			if newName, ok := args.GraphQLTypeNameMap[packageName]; ok {
 				implements = newName
 			} else {
-				implements = exportedName(name)
+				implements = exportedName(packageName)
 			}
 			generated.rootStruct.implements = implements
 		}
-- 
2.43.0


From 028a4cc5f03281adde2b920cdd5259000d5386cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:40 +0000
Subject: [PATCH 40/43] fix: the page of a failed request was taken for the
 schema a reference points to

---
 jsonschema/reference.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 30fdfdc..d7e0a9b 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -173,6 +173,10 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
 		}
+		defer resp.Body.Close()
+		if resp.StatusCode != http.StatusOK {
+			return nil, fmt.Errorf("unable to get reference from %q: %s", sourcePath, resp.Status)
+		}
 		source, err = io.ReadAll(resp.Body)
 		if err != nil {
 			return nil, fmt.Errorf("failed to read body from %q: %v", sourcePath, err)
-- 
2.43.0


From f9b115e951f0a9923737f12c9db26acece271d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 41/43] fix: references with array indices or escaped names in
 their JSON pointer were not found

---
 jsonschema/reference.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index d7e0a9b..f572fa6 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"path/filepath"
+	"strconv"
 	"strings"
 
 	"github.com/GannettDigital/jsonparser"
@@ -216,7 +218,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	if target == "" {
 		data = source
 	} else {
-		data, _, _, err = jsonparser.Get(source, strings.Split(target, "/")...)
+		data, _, _, err = jsonparser.Get(source, targetKeys(source, target)...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to retrieve ref %q: %v", target, err)
 		}
@@ -231,6 +233,24 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	return data, nil
 }
 
+// targetKeys returns the keys on the way to the target of a reference, which is a JSON pointer in a URI fragment.
+func targetKeys(source json.RawMessage, target string) []string {
+	var keys []string
+	for _, name := range strings.Split(target, "/") {
+		if unescaped, err := url.PathUnescape(name); err == nil {
+			name = unescaped
+		}
+		name = strings.ReplaceAll(strings.ReplaceAll(name, "~1", "/"), "~0", "~")
+		if _, err := strconv.Atoi(name); err == nil {
+			if _, dataType, _, _ := jsonparser.Get(source, keys...); dataType == jsonparser.Array {
+				name = "[" + name + "]"
+			}
+		}
+		keys = append(keys, name)
+	}
+	return keys
+}
+
 // addMissingKeywords adds the root level keywords of raw which are missing from the schema, such as default or transform.
 func addMissingKeywords(schema, raw json.RawMessage) (json.RawMessage, error) {
 	var present map[string]json.RawMessage
-- 
2.43.0


From c0f3259074c2e7cf21bb38781aed9d029bf09902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:32 +0000
Subject: [PATCH 42/43] fix: convertToInt64 of a number out of range gave
 another number

---
 transform/operations.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/transform/operations.go b/transform/operations.go
index 2c3e589..1708045 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -407,9 +407,9 @@ func (c *convertToInt64) transform(raw interface{}) (interface{}, error) {
 	case string:
 		return strconv.ParseInt(in, 10, 64)
 	case float32:
-		return int64(in), nil
+		return floatToInt64(float64(in))
 	case float64:
-		return int64(in), nil
+		return floatToInt64(in)
 	case int:
 		return int64(in), nil
 	case int8:
@@ -425,6 +425,14 @@ func (c *convertToInt64) transform(raw interface{}) (interface{}, error) {
 	}
 }
 
+// floatToInt64 truncates the number to an integer, numbers beyond the range of an int64 are an error.
+func floatToInt64(in float64) (int64, error) {
+	if !(in >= math.MinInt64 && in < math.MaxInt64) { // math.MaxInt64 as a float is the first number out of range
+		return 0, errors.New("number is out of range for convertToInt64")
+	}
+	return int64(in), nil
+}
+
 // convertToBool is a transformOperation which converts various types to boolean.
 type convertToBool struct {
 	args map[string]string
-- 
2.43.0


From 20c10b419b765350f09e168649d6b9442ce36500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:14 +0000
Subject: [PATCH 43/43] fix: structs without properties of their own were
 embedded or referred to but not declared

---
 generate/avro.go   | 11 +++++++++--
 generate/struct.go |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index c4fe08b..fdff8a6 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -295,7 +295,7 @@ func writeAvroStruct(cfg avroConfig, name, defaultFields string) astutil.ApplyFu
 			if len(cfg.namespace) != 0 {
 				jsonNamespace = fmt.Sprintf(`"namespace":%s,`, avroString(strings.Join(cfg.namespace, ".")))
 			}
-			if _, err := fmt.Fprintf(cfg.writer, `"name":%s,%s"type":"record","fields":[%s`, avroString(name), jsonNamespace, defaultFields); err != nil {
+			if _, err := fmt.Fprintf(cfg.writer, `"name":%s,%s"type":"record","fields":[`, avroString(name), jsonNamespace); err != nil {
 				return false
 			}
 			return true
@@ -310,7 +310,14 @@ func writeAvroStruct(cfg avroConfig, name, defaultFields string) astutil.ApplyFu
 		}
 
 		if list, ok := n.(*ast.FieldList); ok {
-			writeAvroFields(cfg, list)
+			buf := &bytes.Buffer{}
+			fieldsCfg := cfg
+			fieldsCfg.writer = buf
+			writeAvroFields(fieldsCfg, list)
+			if buf.Len() == 0 {
+				defaultFields = strings.TrimSuffix(defaultFields, ",")
+			}
+			fmt.Fprint(cfg.writer, defaultFields, buf.String())
 			return false
 		}
 
diff --git a/generate/struct.go b/generate/struct.go
index 020267a..c2dc014 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -273,7 +273,7 @@ func (gof *goFile) write(w io.Writer) error {
 	}
 
 	for _, s := range gof.structs() {
-		if len(s.fields) == 0 {
+		if len(s.fields) == 0 && s != gof.rootStruct { // the struct of the schema may embed others or be embedded
 			continue
 		}
 		if _, err := buf.Write([]byte("\n\n")); err != nil {
-- 
2.43.0

