From 5512567a802dadc3ce780ae5139bf011be179a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 001/144] fix: enforce the native range of sized integers

The untyped constants passed as default bounds arrive as int, which DecimalValue did not handle, so no default bound was ever applied.
---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 00c00dd..91943aa 100644
--- a/decimal.go
+++ b/decimal.go
@@ -72,6 +72,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		switch n := defval.(type) {
 		case *Decimal:
 			return n
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
-- 
2.43.0


From 740476b891edfe2441b82f6b076c088cd2147235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 002/144] fix: reject fractional values for integer types

---
 model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model.go b/model.go
index 01bb72a..6918826 100644
--- a/model.go
+++ b/model.go
@@ -298,6 +298,12 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				minval = DecimalValue(td.Min, math.MinInt8)
 				maxval = DecimalValue(td.Max, math.MaxInt8)
 			}
+			switch td.Type {
+			case "Int8", "Int16", "Int32", "Int64":
+				if !n.IsInt() {
+					return fmt.Errorf("%s: Not an integer: %v", context, n)
+				}
+			}
 			nval := n.AsBigFloat()
 			if minval != nil {
 				nmin := minval.AsBigFloat()
-- 
2.43.0


From fe64349a658dd3dfeb900757adecf887ca819604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 003/144] fix: validate union values instead of recursing
 forever

---
 model.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/model.go b/model.go
index 6918826..b5053f1 100644
--- a/model.go
+++ b/model.go
@@ -192,6 +192,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateUnitValue(context, td, value)
 	case "UUID":
 		return model.ValidateUUID(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "Bytes":
 		//fixme
 		return nil
@@ -359,6 +361,31 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+// a union value is a JSON object with optional keys for each variant
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	m, ok := value.(map[string]interface{})
+	if !ok {
+		return fmt.Errorf("%s: Not a Union: %s", context, Pretty(value))
+	}
+	for k, v := range m {
+		var variant *UnionVariantDef
+		for _, vd := range td.Variants {
+			if vd.Name == k {
+				variant = vd
+				break
+			}
+		}
+		if variant == nil {
+			return fmt.Errorf("Undefined variant in %s: '%s'", context, k)
+		}
+		err := model.ValidateAgainstTypeSpec(context+"."+k, &variant.TypeSpec, v)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-- 
2.43.0


From e8c662a23b72f8ee9a1c98ba4101654c95ed1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 004/144] fix: accept unit values with short amounts and plain
 strings in validation

Amounts of one or two characters ("5 USD") were rejected, and a unit value held as a plain string was too.
---
 model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index b5053f1..d6ec4ce 100644
--- a/model.go
+++ b/model.go
@@ -237,11 +237,14 @@ func (model *Model) ValidateUUID(context string, td *TypeSpec, value interface{}
 }
 
 func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interface{}) error {
+	if s, ok := value.(string); ok {
+		value = &s
+	}
 	switch sp := value.(type) {
 	case *string:
 		s := *sp
 		n := strings.Index(s, " ")
-		if n >= 3 {
+		if n > 0 && n < len(s)-1 {
 			val := s[:n]
 			unit := s[n+1:]
 			nval, err := ParseDecimal(val)
-- 
2.43.0


From a24171c094b13ed510a901533a02d2fdbf334a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 005/144] fix: accept timestamps held as plain strings in
 validation

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index d6ec4ce..b13ac49 100644
--- a/model.go
+++ b/model.go
@@ -495,6 +495,9 @@ func (model *Model) ValidateTimestamp(tname string, td *TypeSpec, val interface{
 	if _, ok := val.(*Timestamp); ok {
 		return nil
 	}
+	if s, ok := val.(string); ok {
+		val = &s
+	}
 	if s, ok := val.(*string); ok {
 		_, err := ParseTimestamp(*s)
 		if err == nil {
-- 
2.43.0


From 9f874142afcbcfa1951d4e201be424a3cc79cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 006/144] fix: validate map keys against the declared key type

---
 model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model.go b/model.go
index b13ac49..49840b3 100644
--- a/model.go
+++ b/model.go
@@ -435,6 +435,14 @@ func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{})
 				}
 			}
 		}
+		if td.Keys != "" && td.Keys != "Any" && td.Keys != "String" {
+			for k := range a {
+				err := model.Validate(fmt.Sprintf("%s key %q", context, k), td.Keys, k)
+				if err != nil {
+					return err
+				}
+			}
+		}
 		if td.MaxSize != nil {
 			if len(a) > int(*td.MaxSize) {
 				return fmt.Errorf("%s: Map is too large (maxsize=%d): %v", context, *td.MaxSize, Pretty(value))
-- 
2.43.0


From 239a7b3240e2d35f04a168ebea8f8a7890ee4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 007/144] fix: do not accept infinities as Decimal numbers

They cannot be written as JSON numbers.
---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 91943aa..39db9b2 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From 560bfb638de963d4f76a83dfd9bfdc0247b9215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 008/144] fix: reject UUID text with characters that are not
 hexadecimal digits

---
 uuid.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uuid.go b/uuid.go
index b509003..7392271 100644
--- a/uuid.go
+++ b/uuid.go
@@ -29,5 +29,13 @@ func ParseUUID(text string) UUID {
 	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
 		return ""
 	}
+	for i, ch := range text {
+		if i == 8 || i == 13 || i == 18 || i == 23 {
+			continue
+		}
+		if !IsDigit(ch) && !(ch >= 'a' && ch <= 'f') && !(ch >= 'A' && ch <= 'F') {
+			return ""
+		}
+	}
 	return UUID(text)
 }
-- 
2.43.0


From 27b62e22ac99361ff5c4388d23eac6ae4fb2b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 009/144] fix: print timestamps in UTC with a four-digit year

The fields of a non-UTC time were printed with a Z suffix, which is a different instant, and years before 1000 could not be parsed back.
---
 timestamp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..d48adbf 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,12 +11,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts = Timestamp{ts.UTC()}
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From ee653f8ccfb90354b848f95e41596484aaa0e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 010/144] fix: escape the unit when encoding a UnitValue as
 JSON

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From 51c878a0c5ca043521e792291459d99fee8e8a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 011/144] fix: validate against the bare Array, Map and
 UnitValue types

They stand for Array<Any>, Map<String,Any> and UnitValue<Decimal,String>, but any value was rejected with "Undefined type".
---
 model.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index 49840b3..44eb0ec 100644
--- a/model.go
+++ b/model.go
@@ -248,9 +248,11 @@ func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interf
 			val := s[:n]
 			unit := s[n+1:]
 			nval, err := ParseDecimal(val)
-			if err == nil {
+			if err == nil && td.Value != "" {
 				err = model.Validate(context+".value", td.Value, nval)
-				if err == nil {
+			}
+			if err == nil {
+				if td.Unit != "" {
 					err = model.Validate(context+".unit", td.Unit, unit)
 				}
 			}
@@ -392,7 +394,7 @@ func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-		if td.Items != "Any" {
+		if td.Items != "Any" && td.Items != "" {
 			tdi := model.FindType(td.Items)
 			if tdi == nil {
 				return fmt.Errorf("%s: Undefined type: %s", context, td.Items)
@@ -423,7 +425,7 @@ func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{
 func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case map[string]interface{}:
-		if td.Items != "Any" {
+		if td.Items != "Any" && td.Items != "" {
 			tdi := model.FindType(td.Items)
 			if tdi == nil {
 				return fmt.Errorf("%s: Undefined type: %s", context, td.Items)
-- 
2.43.0


From 2160b093888713c83703603941618884cc9229d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 012/144] fix: comparing an undefined type name no longer
 dereferences nil

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 44eb0ec..531d891 100644
--- a/model.go
+++ b/model.go
@@ -64,6 +64,9 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
+	if td1 == nil || td2 == nil {
+		return false
+	}
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
-- 
2.43.0


From 2665bc1bd18ad575c4e10015a811701923ffd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 013/144] fix: compare constraints by value when deciding type
 equivalence

Sizes and bounds were compared as pointers, maximum sizes with themselves, structs by field count only and union variants without their names.
---
 model.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/model.go b/model.go
index 531d891..5b96577 100644
--- a/model.go
+++ b/model.go
@@ -70,6 +70,20 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
+func equivalentSize(s1, s2 *int64) bool {
+	if s1 == nil || s2 == nil {
+		return s1 == s2
+	}
+	return *s1 == *s2
+}
+
+func equivalentNumber(n1, n2 *Decimal) bool {
+	if n1 == nil || n2 == nil {
+		return n1 == n2
+	}
+	return n1.Cmp(&n2.Float) == 0
+}
+
 func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	if ts1.Type != ts2.Type {
 		return false
@@ -77,7 +91,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !equivalentSize(ts1.MinSize, ts2.MinSize) || !equivalentSize(ts1.MaxSize, ts2.MaxSize) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -102,8 +116,14 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Fields) != len(ts2.Fields) {
 			return false
 		}
+		for i, f1 := range ts1.Fields {
+			f2 := ts2.Fields[i]
+			if f1.Name != f2.Name || f1.Required != f2.Required || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+				return false
+			}
+		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equivalentSize(ts1.MinSize, ts2.MinSize) || !equivalentSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 	case "UnitValue":
@@ -114,7 +134,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equivalentSize(ts1.MinSize, ts2.MinSize) || !equivalentSize(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -124,7 +144,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !equivalentNumber(ts1.Min, ts2.Min) || !equivalentNumber(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
@@ -148,10 +168,10 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		}
 		m := make(map[string]bool, 0)
 		for _, v := range ts1.Variants {
-			m[v.Type] = true
+			m[v.Name+" "+v.Type] = true
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Type]; !ok {
+			if _, ok := m[v.Name+" "+v.Type]; !ok {
 				return false
 			}
 		}
-- 
2.43.0


From 4bcbf8026f17b99db982662fa1026349b1390d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 014/144] fix: do not define a hoisted enum twice

An equivalent existing type was defined again under the same name, and two fields needing the same new name were never compared with each other.
---
 model.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 5b96577..12465fb 100644
--- a/model.go
+++ b/model.go
@@ -689,11 +689,13 @@ func (model *Model) ConvertInlineEnums() error {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
 							return fmt.Errorf("cannot refactor, duplicate type names for non-equivalent types: %s and %s\n", Pretty(prev), Pretty(fdef))
 						}
+					} else {
+						tds = append(tds, ntd)
+						model.typeIndex[tname] = ntd
 					}
 					var blank TypeSpec
 					fdef.TypeSpec = blank
 					fdef.Type = tname
-					tds = append(tds, ntd)
 				}
 			}
 		}
-- 
2.43.0


From 1d6dd34202a0da3ac872818c893335404d4edc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 015/144] fix: resolve example targets through named struct
 types and actions without an expected result

---
 model.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 12465fb..19ddc59 100644
--- a/model.go
+++ b/model.go
@@ -621,7 +621,11 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-					for _, out := range h.Expected.Outputs {
+					var outputs []*HttpParamSpec
+					if h.Expected != nil {
+						outputs = h.Expected.Outputs
+					}
+					for _, out := range outputs {
 						if out.Name == fname {
 							lst = lst[1:]
 							tmp = &out.TypeSpec
@@ -644,6 +648,12 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 		return nil, fmt.Errorf("Undefined type '%s' in example: %s", theType, Pretty(ex))
 	}
 	for len(lst) > 0 {
+		if ts.Type != "Struct" {
+			//a field of a named type
+			if t := model.FindType(ts.Type); t != nil {
+				ts = &t.TypeSpec
+			}
+		}
 		if ts.Type != "Struct" {
 			return nil, fmt.Errorf("Cannot dereference a non-struct in example target: %v", ex)
 		}
-- 
2.43.0


From 079860864df47ec43111f72a0545401f4f334502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 016/144] fix: a nested lookup stops at the first missing key

It went on looking for the remaining keys in the enclosing map.
---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index b72f5ad..c0aa172 100644
--- a/data.go
+++ b/data.go
@@ -112,6 +112,8 @@ func (data *Data) get(keys []string) interface{} {
 					} else {
 						return v
 					}
+				} else {
+					return nil
 				}
 			}
 		}
-- 
2.43.0


From 30fa47ca408c380172acb3716091187465418c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 017/144] fix: do not start a wrapped comment with an
 unprefixed empty line

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 608b482..ff2246d 100644
--- a/misc.go
+++ b/misc.go
@@ -137,7 +137,7 @@ func FormatComment(indent, prefix, comment string, maxcol int, extraPad bool) st
 	tokens := strings.Split(comment, " ")
 	for _, tok := range tokens {
 		toklen := len(tok)
-		if col+toklen >= maxcol {
+		if col > 0 && col+toklen >= maxcol {
 			buf.WriteString("\n")
 			lines++
 			col = 0
-- 
2.43.0


From 8e8e81abc200bf511991d3d679520be0c6f0f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 018/144] fix: report errors when flushing a generated file

A short write was silently lost, and a successful write erased an earlier error.
---
 generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 92d1311..4f9de89 100644
--- a/generator.go
+++ b/generator.go
@@ -74,8 +74,13 @@ func (gen *Generator) WriteFile(path string, content string) {
 	}
 	defer f.Close()
 	writer := bufio.NewWriter(f)
-	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	_, err = writer.WriteString(content)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if err != nil {
+		gen.Err = err
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From 414055210da0c7d24b77e84eea26424e2032bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 019/144] fix: OpenAPI export of arrays of Float64 no longer
 panics

---
 openapi/export_openapi.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..25351b5 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -555,9 +555,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
-- 
2.43.0


From 2d696476d35bd489ccec562018f4b9a38b52409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 020/144] fix: OpenAPI export no longer emits references to
 schemas that do not exist

---
 openapi/export_openapi.go | 54 ++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 25351b5..42d63d4 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -453,8 +453,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasTypeRef(vd.Type)
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
@@ -462,8 +463,7 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.oasTypeRef(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -476,8 +476,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasTypeRef(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -542,6 +541,15 @@ func oasNumericEquivalent(sadlTypeName string) (string, string, string) {
 	}
 }
 
+// oasTypeRef returns the schema for a type that is only known by its name: a reference to the component for types the
+// model defines, the equivalent schema for base types.
+func (gen *Generator) oasTypeRef(name string) (*Schema, error) {
+	if name == "" {
+		name = "Any"
+	}
+	return gen.oasSchema(&sadl.TypeSpec{Type: name}, "")
+}
+
 func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error) {
 	//	if name != "" {
 	//		return &Schema{
@@ -613,13 +621,12 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Description: "UUID",
 		}
 		return tr, nil
+	case "Any":
+		return &Schema{}, nil
 	case "Enum":
-		return &Schema{
-			Ref: "#/components/schemas/" + name,
-		}, nil
+		return gen.exportEnumTypeDef(&sadl.TypeDef{TypeSpec: *td})
 	case "Array":
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.oasTypeRef(td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -630,8 +637,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasTypeRef(td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -641,25 +647,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return otd, nil
 	case "Struct":
-		if name != "" {
-			return &Schema{
-				Ref: "#/components/schemas/" + name,
-			}, nil
-		} else {
-			sch := &Schema{
-				Type: "object",
-			}
-			f := make(map[string]*Schema, 0)
-			for _, fd := range td.Fields {
-				fieldSchema, err := gen.oasSchema(&fd.TypeSpec, "")
-				if err != nil {
-					return nil, err
-				}
-				f[fd.Name] = fieldSchema
-			}
-			sch.Properties = f
-			return sch, nil
-		}
+		return gen.exportStructTypeDef(&sadl.TypeDef{TypeSpec: *td})
+	case "Union":
+		return gen.exportUnionTypeDef(&sadl.TypeDef{TypeSpec: *td})
 	default:
 		return &Schema{
 			Ref: "#/components/schemas/" + td.Type,
-- 
2.43.0


From 99b60568967b5d31c131ce33f91a42e84bc862c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 021/144] fix: OpenAPI export keeps the comment of numeric
 types

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 42d63d4..f607dd8 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -394,6 +394,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 			Type:        stype,
 			Format:      sformat,
 		}
+		if td.Comment != "" {
+			otd.Description = td.Comment
+		}
 
 		if td.Min != nil {
 			v := td.Min.AsFloat64()
-- 
2.43.0


From 391b1915ae9cb302a0be87262a047eea43baa472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 022/144] fix: OpenAPI export keeps the permitted values of
 string fields and parameters

---
 openapi/export_openapi.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index f607dd8..613d071 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -496,13 +496,6 @@ func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return nil, err
 	}
 	otd.Description = td.Comment
-	if len(td.Values) > 0 {
-		e := make([]interface{}, 0)
-		for _, s := range td.Values {
-			e = append(e, s)
-		}
-		otd.Enum = e
-	}
 	return otd, nil
 }
 
@@ -595,6 +588,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		if td.Pattern != "" {
 			tr.Pattern = td.Pattern
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		if td.MinSize != nil {
 			tr.MinLength = uint64(*td.MinSize)
 		}
-- 
2.43.0


From 9bac8bc73ecd9c0ec506c5c5dd97a94b9ccdd15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 023/144] fix: OpenAPI export keeps the size limits of arrays
 and maps

---
 openapi/export_openapi.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 613d071..a49908e 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -475,6 +475,13 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 		Items:       itemSchema,
 	}
+	if td.MinSize != nil {
+		schema.MinItems = uint64(*td.MinSize)
+	}
+	if td.MaxSize != nil {
+		tmp := uint64(*td.MaxSize)
+		schema.MaxItems = &tmp
+	}
 	return schema, nil
 }
 
@@ -483,11 +490,19 @@ func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
+	schema := &Schema{
 		Type:                 "object",
 		Description:          td.Comment,
 		AdditionalProperties: itemSchema,
-	}, nil
+	}
+	if td.MinSize != nil {
+		schema.MinProps = uint64(*td.MinSize)
+	}
+	if td.MaxSize != nil {
+		tmp := uint64(*td.MaxSize)
+		schema.MaxProps = &tmp
+	}
+	return schema, nil
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -625,26 +640,10 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Enum":
 		return gen.exportEnumTypeDef(&sadl.TypeDef{TypeSpec: *td})
 	case "Array":
-		itemSchema, err := gen.oasTypeRef(td.Items)
-		if err != nil {
-			return nil, err
-		}
-		tr := &Schema{
-			Type:  "array",
-			Items: itemSchema,
-		}
-		return tr, nil
+		return gen.exportArrayTypeDef(&sadl.TypeDef{TypeSpec: *td})
 	case "Map":
 		//note: keys are always strings
-		itemSchema, err := gen.oasTypeRef(td.Items)
-		if err != nil {
-			return nil, err
-		}
-		otd := &Schema{
-			Type:                 "object",
-			AdditionalProperties: itemSchema,
-		}
-		return otd, nil
+		return gen.exportMapTypeDef(&sadl.TypeDef{TypeSpec: *td})
 	case "Struct":
 		return gen.exportStructTypeDef(&sadl.TypeDef{TypeSpec: *td})
 	case "Union":
-- 
2.43.0


From 9ee681556896d9814ec3aa01162dc585e1d2bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 024/144] fix: OpenAPI export no longer drops PATCH, HEAD and
 OPTIONS actions

---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index a49908e..e14c945 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
+		default:
+			return nil, fmt.Errorf("Unsupported HTTP Method (%s %s)", hdef.Method, p)
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From 0b040ab0f3a8e20f7a9c67f21b46542a56b0cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:48 +0000
Subject: [PATCH 025/144] fix: OpenAPI export of an action without an expected
 result no longer panics

---
 openapi/export_openapi.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index e14c945..a9fd43c 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -196,8 +196,12 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		}
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
+		expected := hdef.Expected
+		if expected == nil {
+			expected = &sadl.HttpExpectedSpec{Status: 200}
+		}
 		content := make(map[string]*MediaType)
-		comment := hdef.Expected.Comment
+		comment := expected.Comment
 		if comment == "" {
 			comment = "Expected response"
 		}
@@ -206,7 +210,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			Content:     content,
 		}
 		var headers map[string]*Header
-		for _, param := range hdef.Expected.Outputs {
+		for _, param := range expected.Outputs {
 			if param.Header != "" {
 				pschema, err := gen.oasSchema(&param.TypeSpec, "")
 				if err != nil {
@@ -234,7 +238,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		if len(headers) > 0 {
 			resp.Headers = headers
 		}
-		key := fmt.Sprint(hdef.Expected.Status)
+		key := fmt.Sprint(expected.Status)
 		responses[key] = resp
 		for _, out := range hdef.Exceptions {
 			content := make(map[string]*MediaType)
-- 
2.43.0


From 58a1d4045617069fa90e216147a0edd69f85f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:48 +0000
Subject: [PATCH 026/144] fix: OpenAPI export finds every operation of a path
 when attaching examples

---
 openapi/export_openapi.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index a9fd43c..80e7213 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -367,24 +367,10 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From ff3f4672827a7f41f55bf972583d93eec6fdf462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:26 +0000
Subject: [PATCH 027/144] fix: OpenAPI export no longer panics on examples for
 bodies an action does not have

---
 openapi/export_openapi.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 80e7213..3ee0461 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -285,7 +285,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
 					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
+						if k == "body" && op.RequestBody != nil {
 							tmp := op.RequestBody.Content["application/json"]
 							if ed.Name == "" {
 								tmp.Example = v
@@ -322,10 +322,16 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 					for k, v := range ed.Example.(map[string]interface{}) {
 						if k == "body" {
 							hact := model.FindHttp(hdefName)
+							if hact.Expected == nil {
+								continue
+							}
 							//FIXME: somehow the example name must include the status to use here
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
 							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
 							tmp := op.Responses[sstatus].Content["application/json"]
+							if tmp == nil {
+								continue
+							}
 							if ed.Name == "" {
 								tmp.Example = v
 							} else {
@@ -355,7 +361,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 						}
 					}
 				} else {
-					panic("no")
+					fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
-- 
2.43.0


From dca59bb1155ee79821bb1eea530b0a892d0ffbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:26 +0000
Subject: [PATCH 028/144] fix: OpenAPI import gives the same model every time,
 and accepts documents without components

---
 openapi/import_openapi.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..d75b4fe 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -141,7 +142,12 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
+	var schemas map[string]*Schema
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
+	for _, name := range sortedKeys(schemas) {
+		oasSchema := schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -151,10 +157,10 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
+			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
-				panic("hmm")
+				err = fmt.Errorf("Reference to an undefined schema: %q", oasSchema.Ref)
 			}
 		} else {
 			ts, err = convertOasType(name, oasSchema)
@@ -174,8 +180,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
-		path2 := *path
+	for _, tmpl := range sortedKeys(model.Paths) {
+		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -214,6 +220,16 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	return sadl.NewModel(schema)
 }
 
+// sortedKeys gives the keys of a string-keyed map in order, so that the same document always imports the same way.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func validSadlName(name string, oasSchema *Schema) string {
 	if name == "Timestamp" {
 		if oasSchema.Type == "string" {
@@ -346,7 +362,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			for _, fname := range sortedKeys(oasSchema.Properties) {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -505,7 +522,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -531,7 +548,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		for _, header := range sortedKeys(eparam.Headers) {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -570,7 +588,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
-- 
2.43.0


From f00be30e0421b0340535a536de68b1b1fd62be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 029/144] fix: OpenAPI import no longer drops PATCH and OPTIONS
 operations

---
 openapi/import_openapi.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index d75b4fe..784f16f 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -122,7 +122,7 @@ func xParse(data []byte, format string) (*Model, error) {
 
 var examples []*sadl.ExampleDef
 
-var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
+var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
@@ -642,11 +642,11 @@ func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 		return oasPathItem.Delete
 	case "HEAD":
 		return oasPathItem.Head
+	case "PATCH":
+		return oasPathItem.Patch
+	case "OPTIONS":
+		return oasPathItem.Options
 		/*
-			case "PATCH":
-				return oasPathItem.Patch
-			case "OPTIONS":
-				return oasPathItem.Options
 			case "TRACE":
 				return oasPathItem.Trace
 			case "CONNECT":
-- 
2.43.0


From 34e4daa3c04cf868a6e6cec454cfbf712fd774a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 030/144] fix: OpenAPI import keeps the float, double and byte
 formats

---
 openapi/import_openapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 784f16f..54926ca 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -302,6 +302,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Type = "UUID"
 			} else if oasSchema.Format == "date-time" {
 				ts.Type = "Timestamp"
+			} else if oasSchema.Format == "byte" {
+				ts.Type = "Bytes"
 			} else {
 				ts.Pattern = oasSchema.Pattern
 				if oasSchema.MinLength > 0 {
@@ -332,7 +334,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		//minsize, maxsize
 		//comment
 	case "number":
-		ts.Type = "Decimal"
+		switch oasSchema.Format {
+		case "float":
+			ts.Type = "Float32"
+		case "double":
+			ts.Type = "Float64"
+		default:
+			ts.Type = "Decimal"
+		}
 		if oasSchema.Min != nil {
 			ts.Min = sadl.NewDecimal(*oasSchema.Min)
 		}
-- 
2.43.0


From 7356d1ac4721fa86a7d4fe0c2c475c2f41d020e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 031/144] fix: OpenAPI import keeps the size limits of arrays

---
 openapi/import_openapi.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 54926ca..0399638 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -331,7 +331,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				}
 			}
 		}
-		//minsize, maxsize
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
+		}
 		//comment
 	case "number":
 		switch oasSchema.Format {
-- 
2.43.0


From 479f71db5235a876eb9e00754d0db33eba276315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 032/144] fix: OpenAPI import turns objects with
 additionalProperties into maps instead of empty structs

---
 openapi/import_openapi.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 0399638..a7ef4ea 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -375,6 +375,27 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			ts.Max = sadl.NewDecimal(*oasSchema.Max)
 		}
 	case "", "object":
+		if items, ok := additionalSchema(oasSchema); ok && len(oasSchema.Properties) == 0 {
+			ts.Type = "Map"
+			ts.Keys = "String"
+			ts.Items = oasTypeRef(items)
+			if ts.Items == "" {
+				its, err := convertOasType(name+".Items", items)
+				if err != nil {
+					return ts, err
+				}
+				ts.Items = its.Type
+			}
+			if oasSchema.MinProps > 0 {
+				tmpMin := int64(oasSchema.MinProps)
+				ts.MinSize = &tmpMin
+			}
+			if oasSchema.MaxProps != nil {
+				tmpMax := int64(*oasSchema.MaxProps)
+				ts.MaxSize = &tmpMax
+			}
+			return ts, nil
+		}
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
@@ -401,6 +422,19 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+// additionalSchema gives the schema of the values of a map-like object, if it declares one.
+func additionalSchema(oasSchema *Schema) (*Schema, bool) {
+	switch v := oasSchema.AdditionalProperties.(type) {
+	case *Schema:
+		return v, v != nil
+	case map[string]interface{}:
+		var items *Schema
+		err := json.Unmarshal([]byte(sadl.ToString(v)), &items)
+		return items, err == nil && items != nil
+	}
+	return nil, false
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
-- 
2.43.0


From 2c92f2be9e5ce2e8c4d42a33d1ed9f7ac02674c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 033/144] fix: OpenAPI import of a schema that accepts anything
 gives Any instead of an empty struct

---
 openapi/import_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index a7ef4ea..ce182c6 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -397,6 +397,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			return ts, nil
 		}
 		ts.Type = "Struct"
+		if oasSchema.Type == "" && oasSchema.Properties == nil && oasSchema.OneOf == nil && oasSchema.AnyOf == nil && oasSchema.AllOf == nil {
+			ts.Type = "Any"
+		}
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
 			for _, fname := range sortedKeys(oasSchema.Properties) {
-- 
2.43.0


From 739db1362e37fc68a4c0a592fb5203f61f1c3a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 034/144] fix: OpenAPI import reports unsupported documents as
 errors instead of panicking

---
 openapi/import_openapi.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index ce182c6..1a09db5 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -326,9 +326,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		if oasSchema.MinItems > 0 {
@@ -414,13 +415,15 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("OAS type not handled: %q", oasSchema.Type)
 	}
 	return ts, err
 }
@@ -504,8 +507,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		case "path":
 			spec.Path = true
 			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+				return nil, fmt.Errorf("Path parameter %q is not in the path template: %s", param.Name, path)
 			}
 		case "header":
 			spec.Header = param.Name
@@ -649,7 +651,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("Wildcard response codes not supported: %q", status)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -667,7 +669,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("Inline response types not yet supported (operation %q, status %s)", op.OperationId, status)
 						}
 						break
 					}
-- 
2.43.0


From 49e1d557297c108d5d17480001a585b72ad84c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 035/144] fix: OpenAPI import keeps digits in parameter names

---
 openapi/import_openapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 1a09db5..7b4ec40 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -459,7 +459,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]+")
 	return reg.ReplaceAllString(text, "")
 }
 
-- 
2.43.0


From 998f759af5c8479b4e3153ed655731b44977b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 036/144] fix: OpenAPI import keeps the types and constraints
 of parameters and inline bodies

---
 openapi/import_openapi.go | 40 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 7b4ec40..a2bb5dc 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -517,23 +517,20 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
 			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
-			}
-			if spec.Type == "Array" {
-				if param.Schema.Items == nil {
-					spec.Items = "Any"
-				} else {
-					schref := param.Schema.Items
-					switch schref.Type {
-					case "string":
-						spec.Items = "String"
-					default:
-						spec.Items = "Any"
-					}
+				schema := *param.Schema
+				schema.Enum = nil
+				schema.Example = nil
+				var err error
+				spec.TypeSpec, err = convertOasType(name, &schema)
+				if err != nil {
+					return nil, err
 				}
 			}
+			if spec.Type == "Array" && spec.Items == "" {
+				spec.Items = "Any"
+			}
 			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+				return nil, fmt.Errorf("Parameter %q of operation %q is an object", param.Name, op.OperationId)
 			}
 			if param.Schema != nil && param.Schema.Enum != nil {
 				for _, val := range param.Schema.Enum {
@@ -555,13 +552,18 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
 				if contentType == "application/json" { //hack
-					bodyType := oasTypeRef(mediadef.Schema)
-					if bodyType != "" {
+					bodyType := sadl.TypeSpec{Type: oasTypeRef(mediadef.Schema)}
+					if bodyType.Type == "" && mediadef.Schema != nil {
+						var err error
+						bodyType, err = convertOasType(hact.Name+".body", mediadef.Schema)
+						if err != nil {
+							return nil, err
+						}
+					}
+					if bodyType.Type != "" {
 						spec := &sadl.HttpParamSpec{
 							StructFieldDef: sadl.StructFieldDef{
-								TypeSpec: sadl.TypeSpec{
-									Type: bodyType,
-								},
+								TypeSpec: bodyType,
 								Comment:  op.RequestBody.Description,
 								Name:     "body",
 								Required: op.RequestBody.Required,
-- 
2.43.0


From ce7d45a4402c388f618964adc911ff423b4a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 037/144] fix: OpenAPI import reports errors in the types of
 expected results

---
 openapi/import_openapi.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index a2bb5dc..36c611f 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -622,6 +622,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -636,6 +639,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-- 
2.43.0


From 2f728943e198451bcef2ae5c1da5d278bd60529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 038/144] fix: Swagger import reads numeric bounds under their
 proper names

---
 openapi/import_swagger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..13f18dc 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -228,12 +228,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "integer", "number":
 		schema.Format = v2.GetString("format")
-		if v2.Has("min") {
-			f := v2.GetFloat64("min")
+		if v2.Has("minimum") {
+			f := v2.GetFloat64("minimum")
 			schema.Min = &f
 		}
-		if v2.Has("max") {
-			f := v2.GetFloat64("max")
+		if v2.Has("maximum") {
+			f := v2.GetFloat64("maximum")
 			schema.Max = &f
 		}
 	case "boolean":
-- 
2.43.0


From b96423161b20fbcdf259b62a78efaaa1385a345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 039/144] fix: Swagger import keeps the format, items,
 constraints and description of parameters and headers

---
 openapi/import_swagger.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 13f18dc..247bebf 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -107,16 +107,16 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 				Content:     toV3Content(consumes, paramd.Get("schema")),
 			}
 		} else {
-			var tp interface{}
-			tp = paramd.GetString("type")
-			if tp == "" {
+			tp := param
+			if paramd.GetString("type") == "" {
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
-				In:       paramd.GetString("in"),
-				Name:     paramd.GetString("name"),
-				Required: paramd.GetBool("required"),
-				Schema:   toV3Schema(tp),
+				In:          paramd.GetString("in"),
+				Name:        paramd.GetString("name"),
+				Description: paramd.GetString("description"),
+				Required:    paramd.GetBool("required"),
+				Schema:      toV3Schema(tp),
 			}
 			params = append(params, p)
 		}
@@ -155,7 +155,7 @@ func toV3Headers(v2 map[string]interface{}) map[string]*Header {
 		vd := sadl.AsData(v)
 		headers[k] = &Header{
 			Description: vd.GetString("description"),
-			Schema:      toV3Schema(vd.GetString("type")),
+			Schema:      toV3Schema(v),
 		}
 	}
 	return headers
-- 
2.43.0


From 1779a004eddfeec04bece56a4759a28f4a422580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 040/144] fix: Swagger import keeps array sizes and map items

---
 openapi/import_swagger.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 247bebf..9de4ddf 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -205,8 +205,18 @@ func toV3Schema(v2Any interface{}) *Schema {
 		for k, v := range v2.GetData("properties").AsMap() {
 			schema.Properties[k] = toV3Schema(v)
 		}
+		if m := v2.GetMap("additionalProperties"); m != nil {
+			schema.AdditionalProperties = toV3Schema(m)
+		}
 	case "array":
 		schema.Items = toV3Schema(v2.Get("items"))
+		if v2.Has("maxItems") {
+			n := uint64(v2.GetInt64("maxItems"))
+			schema.MaxItems = &n
+		}
+		if v2.Has("minItems") {
+			schema.MinItems = uint64(v2.GetInt64("minItems"))
+		}
 	case "string":
 		schema.Format = v2.GetString("format")
 		schema.Pattern = v2.GetString("pattern")
-- 
2.43.0


From e81dbb6b1acddcf70510ebc807956dd68a65a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 041/144] fix: Swagger import accepts schemas without an
 explicit type

---
 openapi/import_swagger.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 9de4ddf..fd0115a 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -251,9 +251,11 @@ func toV3Schema(v2Any interface{}) *Schema {
 	default:
 		if v2.Has("$ref") {
 			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
-		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
+		} else if v2.Has("properties") {
+			schema.Properties = make(map[string]*Schema, 0)
+			for k, v := range v2.GetData("properties").AsMap() {
+				schema.Properties[k] = toV3Schema(v)
+			}
 		}
 	}
 	return schema
-- 
2.43.0


From 0e1b5cb8141ef1e21f51c53681661d865395cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 042/144] fix: GraphQL export maps the item types of lists to
 GraphQL types

---
 graphql/export_graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..359686f 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -144,7 +144,7 @@ func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		return fmt.Sprintf("[%s!]", w.typeRef(&sadl.TypeSpec{Type: ts.Items}))
 	default:
 		td := w.model.FindType(ts.Type)
 		if td != nil {
-- 
2.43.0


From 0f583df0874baba3689f70f8935be942058ddb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 043/144] fix: GraphQL export handles named UUID and Timestamp
 types and reports unsupported ones as errors

---
 graphql/export_graphql.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 359686f..7b46160 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -11,8 +11,7 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
 	fmt.Print(s)
 	return nil
@@ -41,12 +40,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "UUID", "Timestamp":
 			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("GraphQL export of this type is not supported: %s (%s)", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From 880bbbc2ca9a58528d53140539f71d4968a80404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 044/144] fix: GraphQL export keeps every line of a comment
 inside the comment

---
 graphql/export_graphql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 7b46160..4f3aa3a 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -96,7 +97,9 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			for _, line := range strings.Split(fd.Comment, "\n") {
+				w.Emit("  # %s\n", line)
+			}
 		}
 		ftype := w.typeRef(&fd.TypeSpec)
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
-- 
2.43.0


From b36971a6dc10236e80b780cd95401475ac99a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 045/144] fix: GraphQL export emits custom scalars in a fixed
 order

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 4f3aa3a..5d8d05b 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/boynton/sadl"
@@ -52,7 +53,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	var scalars []string
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From e948bc6164ac6e19fb82f3d4c06441b9301b993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 046/144] fix: GraphQL import reports lists of lists as errors
 instead of panicking

---
 graphql/import_graphql.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..2c696d2 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -215,10 +215,10 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				default:
-					panic("inline list type not supported")
+					return fmt.Errorf("Inline list type not supported: %s.%s", td.Name, fd.Name)
 				}
 			default:
-				panic("list type not supported")
+				return fmt.Errorf("List type not supported: %s.%s", td.Name, fd.Name)
 			}
 		case *gql_ast.NonNull:
 			fd.Required = true
@@ -231,9 +231,12 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				case *gql_ast.NonNull:
+					if _, ok := it.Type.(*gql_ast.Named); !ok {
+						return fmt.Errorf("Inline list type not supported: %s.%s", td.Name, fd.Name)
+					}
 					fd.Items = convertTypeName(typeName(it.Type))
 				default:
-					panic("inline list type not supported")
+					return fmt.Errorf("Inline list type not supported: %s.%s", td.Name, fd.Name)
 				}
 			default:
 				fd.Type = convertTypeName(typeName(t))
-- 
2.43.0


From fe998a190f3b0a9580d8440a71ea4b3e1e0a9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:40 +0000
Subject: [PATCH 047/144] fix: GraphQL import ignores operation types wherever
 the schema definition stands

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index 2c696d2..fbc6ef2 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -67,6 +67,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 		},
 	}
 	schema.Types = append(schema.Types, td)
+	for _, def := range doc.Definitions {
+		if tdef, ok := def.(*gql_ast.SchemaDefinition); ok {
+			for _, opt := range tdef.OperationTypes {
+				iname := (*gql_ast.Named)(opt.Type).Name.Value
+				ignore[iname] = true
+			}
+		}
+	}
 	for _, def := range doc.Definitions {
 		switch tdef := def.(type) {
 		case *gql_ast.ObjectDefinition:
@@ -74,10 +82,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 				err = gqlStruct(schema, tdef)
 			}
 		case *gql_ast.SchemaDefinition:
-			for _, opt := range tdef.OperationTypes {
-				iname := (*gql_ast.Named)(opt.Type).Name.Value
-				ignore[iname] = true
-			}
+			//already taken into account
 		case *gql_ast.EnumDefinition:
 			err = gqlEnum(schema, tdef)
 		case *gql_ast.UnionDefinition:
-- 
2.43.0


From 12089e5029c9e3610bcee159a626f3104ab3313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 048/144] fix: Go generator: import what the code of enums uses

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..2e23959 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -208,6 +208,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 			return val
 		},
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	gen.EmitTemplate("enumType", enumTemplate, td, funcMap)
 }
 
-- 
2.43.0


From bc8fb48d6ab743408bd46c6b377b6c414a0a16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 049/144] fix: Go generator: the functions that convert text to
 named numbers compile and parse their own type

---
 golang/golang_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2e23959..f3a96f7 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/boynton/sadl"
@@ -126,7 +127,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		parse := "strconv.ParseInt(s, 10, " + strings.TrimPrefix(td.Type, "Int") + ")"
+		if strings.HasPrefix(td.Type, "Float") {
+			parse = "strconv.ParseFloat(s, " + strings.TrimPrefix(td.Type, "Float") + ")"
+		}
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From efb475b4b696bfb1d0b0fe9a420c14492e1d9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 050/144] fix: Go generator: fields and items of built-in types
 no longer refer to Go types that do not exist

---
 golang/export_golang.go | 38 +++++++++++++++++++++++++++++++-------
 golang/golang_model.go  |  7 ++-----
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..e5d573d 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -180,13 +180,16 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			//			gen.addImport("math/big")
 			return "*" + name
 		}
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any":
+		return "interface{}"
 	case "Array":
-		its := gen.Model.FindType(ts.Items)
-		return "[]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
+		return "[]" + gen.elementTypeName(ts.Items, "Any")
 	case "Map":
-		its := gen.Model.FindType(ts.Items)
-		kts := gen.Model.FindType(ts.Keys)
-		return "map[" + gen.nativeTypeName(&kts.TypeSpec, ts.Keys) + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
+		return "map[" + gen.elementTypeName(ts.Keys, "String") + "]" + gen.elementTypeName(ts.Items, "Any")
 	case "Timestamp":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
@@ -200,9 +203,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			gen.addImport("github.com/boynton/sadl")
 			return "*sadl." + name
 		} else {
-			//FIXME
-			return "*" + name
+			gen.unsupported("UnitValue without the runtime option")
+			return name
 		}
+	case "Struct", "Enum", "Union":
+		gen.unsupported("Inline " + name)
+		return name
 	default:
 		//must be a app-defined class. Parser should have already verified its existence
 		td := gen.Model.FindType(name)
@@ -216,6 +222,24 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	}
 }
 
+// the native name of the items or keys of a collection, which may be unspecified
+func (gen *Generator) elementTypeName(name string, defaultName string) string {
+	if name == "" {
+		name = defaultName
+	}
+	ets := &sadl.TypeSpec{Type: name}
+	if td := gen.Model.FindType(name); td != nil {
+		ets = &td.TypeSpec
+	}
+	return gen.nativeTypeName(ets, name)
+}
+
+func (gen *Generator) unsupported(what string) {
+	if gen.Err == nil {
+		gen.Err = fmt.Errorf("Go generator: %s not supported", what)
+	}
+}
+
 func capitalize(s string) string {
 	return strings.ToUpper(s[0:1]) + s[1:]
 }
diff --git a/golang/golang_model.go b/golang/golang_model.go
index f3a96f7..2ed133b 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -144,14 +144,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 }
 
 func (gen *Generator) EmitArrayType(td *sadl.TypeDef) {
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
-	gen.Emit("type " + td.Name + " []" + itemType + "\n")
+	gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, "Array") + "\n")
 }
 
 func (gen *Generator) EmitMapType(td *sadl.TypeDef) {
-	keyType := gen.nativeTypeName(&td.TypeSpec, td.Keys)
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
-	gen.Emit("type " + td.Name + " map[" + keyType + "]" + itemType + "\n")
+	gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, "Map") + "\n")
 }
 
 func (gen *Generator) EmitStructType(td *sadl.TypeDef, errors map[string]bool) {
-- 
2.43.0


From 60e0e44502863eaad4aa339a3c848ef12c5650f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 051/144] fix: Go generator: named Bool, Bytes, Any, Decimal
 and Timestamp types are declared and keep their JSON encoding

---
 golang/export_golang.go |  3 ++-
 golang/golang_model.go  | 15 +++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index e5d573d..db48050 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -215,7 +215,8 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if td == nil {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
-		if td.Type == "Struct" {
+		switch td.Type {
+		case "Struct", "Decimal", "Timestamp":
 			name = "*" + name
 		}
 		return name
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2ed133b..27b8b22 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,7 +1,6 @@
 package golang
 
 import (
-	"fmt"
 	"strings"
 	"text/template"
 
@@ -116,9 +115,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.Emit("type " + td.Name + " string\n")
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
-	case "Decimal":
-		gen.Emit("type " + td.Name + " Decimal\n")
-		gen.createDecimal = true
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
+	case "Decimal", "Timestamp":
+		//embedded, so that the methods, the JSON encoding among them, are kept
+		gen.Emit("type " + td.Name + " struct {\n\t" + strings.TrimPrefix(gen.nativeTypeName(&td.TypeSpec, td.Type), "*") + "\n}\n")
 	case "Array":
 		gen.EmitArrayType(td)
 	case "Map":
@@ -136,9 +137,7 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
 	default:
-		fmt.Println(td.Type)
-		panic("EmitType NYI: " + td.Type)
-		//do nothing, i.e. a String subclass
+		gen.unsupported("Type definition with base type " + td.Type)
 	}
 
 }
@@ -414,5 +413,5 @@ func ParseTimestamp(s string) (Timestamp, error) {
 `
 
 func (gen *Generator) EmitUnitValueType(td *sadl.TypeDef) {
-	panic("emitUnitValueType NYI")
+	gen.unsupported("Type definition with base type UnitValue")
 }
-- 
2.43.0


From 02c4f195e9448af3665c398c458b93b8acde2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 052/144] fix: Go generator: refer to unions by pointer, as
 their methods do, so that optional ones can be absent

---
 golang/export_golang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index db48050..ca982be 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -216,7 +216,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
 		switch td.Type {
-		case "Struct", "Decimal", "Timestamp":
+		case "Struct", "Union", "Decimal", "Timestamp":
 			name = "*" + name
 		}
 		return name
-- 
2.43.0


From 32e8dced008ad6bf90d9aadec3192f222283197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 053/144] fix: Go generator: the model of an action without an
 expected result no longer panics

---
 golang/golang_model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 27b8b22..76cb17d 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -79,8 +79,10 @@ func (gen *Generator) EmitResponseType(hd *sadl.HttpDef) {
 	}
 	td.Type = "Struct"
 	fields := make([]*sadl.StructFieldDef, 0)
-	for _, p := range hd.Expected.Outputs {
-		fields = append(fields, &p.StructFieldDef)
+	if hd.Expected != nil {
+		for _, p := range hd.Expected.Outputs {
+			fields = append(fields, &p.StructFieldDef)
+		}
 	}
 	td.Fields = fields
 	gen.EmitStructType(td, nil)
-- 
2.43.0


From 68402dd37196314b89f0dcc03d5c46b78e6cc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 054/144] fix: Go generator: printing a generated Decimal no
 longer recurses forever

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 76cb17d..f3127b3 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -319,7 +319,7 @@ func NewDecimal(val float64) *Decimal {
 }
 
 func (d *Decimal) String() string {
-	return fmt.Sprint(d)
+	return d.Text('f', -1)
 }
 
 func (d *Decimal) AsInt32() int32 {
-- 
2.43.0


From 74f812b4e0de69256012b43f8d6381b90bba6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 055/144] fix: Go generator: generated Decimals keep all digits
 of JSON numbers and reject infinities

---
 golang/golang_model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index f3127b3..4c6653d 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -288,10 +288,10 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 			return nil
 		}
 	} else {
-		var floatRepr float64
-		err = json.Unmarshal(b, &floatRepr)
+		var num *Decimal
+		num, err = ParseDecimal(string(b))
 		if err == nil {
-         *d = *NewDecimal(floatRepr)
+			*d = *num
 			return nil
 		}
 	}
@@ -308,7 +308,7 @@ func DecimalFromString(text string) *Decimal {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
    return &Decimal{Float:*num}, nil
-- 
2.43.0


From 68300cb6db3a69aa6b2a5c5152f473ad2215196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:53 +0000
Subject: [PATCH 056/144] fix: Go generator: generated Timestamps print in UTC
 with a four-digit year

---
 golang/golang_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 4c6653d..b782218 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -360,12 +360,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts = Timestamp{ts.UTC()}
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From d14c705824f7fc77502241028babb80f55d3b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 057/144] fix: Go server: handlers compile whatever inputs and
 outputs the action has

---
 golang/golang_server.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..bc4f5fc 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\terr = r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,7 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
+					s = s + "\terr = json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
 					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
@@ -95,7 +95,7 @@ func (gen *Generator) EmitServerAdaptor() {
 		},
 		"outputs": func(hd *sadl.HttpDef) string {
 			s := ""
-			for _, out := range hd.Expected.Outputs {
+			for _, out := range gen.expected(hd).Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
 					s = s + "\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
@@ -112,15 +112,14 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
-				return "_"
-			default:
-				return "res"
+			if len(gen.expected(hd).Outputs) == 0 {
+				return "_, err ="
 			}
+			return "res, err :="
 		},
+		"expectedStatus": func(hd *sadl.HttpDef) int32 { return gen.expected(hd).Status },
 		"expectedEntity": func(hd *sadl.HttpDef) string {
-			for _, out := range hd.Expected.Outputs {
+			for _, out := range gen.expected(hd).Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					return "res." + name
@@ -139,6 +138,14 @@ func (gen *Generator) EmitServerAdaptor() {
 	gen.EmitTemplate("server", serverTemplate, gen, funcMap)
 }
 
+// the expected result of an action, which it need not declare
+func (gen *Generator) expected(hd *sadl.HttpDef) *sadl.HttpExpectedSpec {
+	if hd.Expected == nil {
+		return &sadl.HttpExpectedSpec{Status: 200}
+	}
+	return hd.Expected
+}
+
 func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 	coerceTo := gen.nativeType(in.Type)
 	if strings.HasPrefix(coerceTo, "*") {
@@ -229,15 +236,16 @@ type {{adaptorName}} struct {
 {{range .Model.Http}}
 func (handler *{{adaptorName}}) {{methodName .}}Handler(w http.ResponseWriter, r *http.Request) {
 	req := new({{reqTypeName .}})
+	var err error
 {{inputs .}}
-	{{expectedResult .}}, err := handler.impl.{{methodName .}}(req)
+	{{expectedResult .}} handler.impl.{{methodName .}}(req)
 	if err != nil {
 		switch err.(type) {
 {{exceptions .}}		default:
 			jsonResponse(w, 500, &serverError{Message: fmt.Sprint(err)})
 		}
 	} else {
-{{outputs .}}		jsonResponse(w, {{.Expected.Status}}, {{expectedEntity .}})
+{{outputs .}}		jsonResponse(w, {{expectedStatus .}}, {{expectedEntity .}})
 	}
 }
 {{end}}
-- 
2.43.0


From c34593e72a2b7ab6b9ff7cc97b76172295626d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 058/144] fix: Go server: the Timestamp type the server refers
 to exists whatever the model uses

---
 golang/golang_model.go  |  2 +-
 golang/golang_server.go | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index b782218..f37f854 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -14,7 +14,7 @@ func (gen *Generator) CreateModel() {
 	gen.Begin()
 	gen.EmitInterface()
 	gen.EmitTypeDefs()
-	if gen.createTimestamp {
+	if gen.createTimestamp || (gen.createServer && !gen.runtime) {
 		gen.EmitTimestamp()
 	}
 	if gen.createDecimal {
diff --git a/golang/golang_server.go b/golang/golang_server.go
index bc4f5fc..517b1f8 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -36,9 +36,18 @@ func (gen *Generator) EmitServerAdaptor() {
 	gen.addImport("strconv")
 	gen.addImport("strings")
 	gen.addImport("time")
+	if gen.runtime {
+		gen.addImport("github.com/boynton/sadl")
+	}
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"backquote":   func() string { return "`" },
+		"runtimePackage": func() string {
+			if gen.runtime {
+				return "sadl."
+			}
+			return ""
+		},
 		"serviceName": func() string { return sadl.Capitalize(gen.Name) },
 		"adaptorName": func() string { return sadl.Uncapitalize(gen.Name) + "Adaptor" },
 		"reqTypeName": func(hd *sadl.HttpDef) string { return gen.RequestTypeName(hd) },
@@ -277,9 +286,9 @@ func stringParam(val string, def string) string {
 	return val
 }
 
-func timestampParam(val string, def *Timestamp) *Timestamp {
+func timestampParam(val string, def *{{runtimePackage}}Timestamp) *{{runtimePackage}}Timestamp {
 	if val != "" {
-		ts, err := ParseTimestamp(val)
+		ts, err := {{runtimePackage}}ParseTimestamp(val)
 		if err == nil {
 			return &ts
 		}
@@ -334,7 +343,7 @@ func normalizeHeaderValue(key string, value interface{}) string {
       switch ts := value.(type) {
       case time.Time:
          return timestampRfc2616(ts)
-      case *Timestamp:
+      case *{{runtimePackage}}Timestamp:
          return timestampRfc2616(ts.Time)
       case string:
 			return ts //just trust the application
-- 
2.43.0


From 110ffebe06d53e85e7fb1bf98fb7f2dd392643f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 059/144] fix: Go server: defaults of parameters keep their
 value

---
 golang/golang_server.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 517b1f8..d8da1d1 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -169,7 +169,10 @@ func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 		}
 		return vv
 	case "Timestamp":
-		return fmt.Sprintf("timestampParam(%s, %s)", v, timestampDefault(in.Default))
+		if def := timestampDefault(in.Default); def != "" {
+			v = fmt.Sprintf("stringParam(%s, %q)", v, def)
+		}
+		return fmt.Sprintf("timestampParam(%s, nil)", v)
 	case "Int32", "Int8", "Int16", "Int64":
 		vv := fmt.Sprintf("intParam(%s, %d)", v, intDefault(in.Default))
 		if coerceTo != bt {
@@ -209,6 +212,10 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
+	case *sadl.Decimal:
+		return v.String()
 	default:
 		return fmt.Sprint(any)
 	}
@@ -217,14 +224,16 @@ func stringDefault(any interface{}) string {
 func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
+		return v.String()
+	case *string:
+		return timestampDefault(*v)
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return ts.String()
 		}
 	}
-	return "nil"
+	return ""
 }
 
 func intDefault(v interface{}) int64 {
@@ -232,6 +241,8 @@ func intDefault(v interface{}) int64 {
 		switch n := v.(type) {
 		case *sadl.Decimal:
 			return n.AsInt64()
+		case float64:
+			return int64(n)
 		}
 	}
 	return 0
-- 
2.43.0


From 8df4872efa8cdb908073fc7b531c241e0233edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 060/144] fix: Go server: parameters of Bool, Float, Decimal,
 Enum and named Timestamp types no longer panic the generator

---
 golang/golang_server.go | 60 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index d8da1d1..302638c 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -90,11 +90,11 @@ func (gen *Generator) EmitServerAdaptor() {
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
 				if in.Query != "" {
-					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("r.Form.Get(%q)", in.Query)) + "\n"
+					s = s + gen.paramAssignment(in, fmt.Sprintf("r.Form.Get(%q)", in.Query))
 				} else if in.Header != "" {
-					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("r.Header.Get(%q)", in.Header)) + "\n"
+					s = s + gen.paramAssignment(in, fmt.Sprintf("r.Header.Get(%q)", in.Header))
 				} else if in.Path {
-					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
+					s = s + gen.paramAssignment(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name))
 				} else {
 					s = s + "\terr = json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
 					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
@@ -155,6 +155,60 @@ func (gen *Generator) expected(hd *sadl.HttpDef) *sadl.HttpExpectedSpec {
 	return hd.Expected
 }
 
+func (gen *Generator) paramAssignment(in *sadl.HttpParamSpec, v string) string {
+	target := "req." + sadl.Capitalize(in.Name)
+	switch bt := gen.baseType(in.Type); bt {
+	case "String", "UUID", "Int8", "Int16", "Int32", "Int64":
+		return "\t" + target + " = " + gen.paramAccessor(in, v) + "\n"
+	case "Timestamp":
+		if in.Type == bt {
+			return "\t" + target + " = " + gen.paramAccessor(in, v) + "\n"
+		}
+	}
+	if in.Default != nil {
+		v = fmt.Sprintf("stringParam(%s, %q)", v, stringDefault(in.Default))
+	}
+	return gen.textAssignment("\t", target, in.Type, v, "errorResponse(w, 400, fmt.Sprint(err))\n\t\t\treturn")
+}
+
+// textAssignment emits the code that sets the target to the value the text stands for, unless the text is empty
+func (gen *Generator) textAssignment(indent, target, tname, text, onError string) string {
+	native := gen.nativeType(tname)
+	bt := gen.baseType(tname)
+	parse := ""
+	switch bt {
+	case "String", "UUID":
+		return indent + target + " = " + native + "(" + text + ")\n"
+	case "Bool":
+		parse = "strconv.ParseBool(s)"
+	case "Int8", "Int16", "Int32", "Int64":
+		parse = "strconv.ParseInt(s, 10, " + strings.TrimPrefix(bt, "Int") + ")"
+	case "Float32", "Float64":
+		parse = "strconv.ParseFloat(s, " + strings.TrimPrefix(bt, "Float") + ")"
+	case "Decimal":
+		parse = "[]byte(s)"
+	case "Timestamp", "Enum":
+		parse = "[]byte(strconv.Quote(s))"
+	default:
+		gen.unsupported("Parameter of type " + tname)
+		return ""
+	}
+	s := indent + "if s := " + text + "; s != \"\" {\n"
+	if strings.HasPrefix(parse, "[]byte") {
+		gen.addImport("encoding/json")
+		s = s + indent + "\terr = json.Unmarshal(" + parse + ", &" + target + ")\n"
+		s = s + indent + "\tif err != nil {\n" + indent + "\t\t" + onError + "\n" + indent + "\t}\n"
+	} else {
+		s = s + indent + "\tv, err := " + parse + "\n"
+		s = s + indent + "\tif err != nil {\n" + indent + "\t\t" + onError + "\n" + indent + "\t}\n"
+		s = s + indent + "\t" + target + " = " + native + "(v)\n"
+	}
+	if bt != "Decimal" {
+		gen.addImport("strconv")
+	}
+	return s + indent + "}\n"
+}
+
 func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 	coerceTo := gen.nativeType(in.Type)
 	if strings.HasPrefix(coerceTo, "*") {
-- 
2.43.0


From eec1f4e147b1dd3acaa9225afe9d8efe5cefa284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 061/144] fix: Go server: a default exception is answered with
 a valid status

---
 golang/golang_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 302638c..49cc654 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -115,8 +115,12 @@ func (gen *Generator) EmitServerAdaptor() {
 		"exceptions": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, e := range hd.Exceptions {
+				status := e.Status
+				if status == 0 { //the default exception
+					status = 500
+				}
 				s = s + "\t\tcase " + gen.nativeType(e.Type) + ":\n"
-				s = s + fmt.Sprintf("\t\t\tjsonResponse(w, %d, err)\n", e.Status)
+				s = s + fmt.Sprintf("\t\t\tjsonResponse(w, %d, err)\n", status)
 			}
 			return s
 		},
-- 
2.43.0


From 3e56834d69c4b9fb08290d01139c8a0883292edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 062/144] fix: Go server: header outputs that are not set are
 left out instead of crashing the handler

---
 golang/golang_client.go | 6 +++---
 golang/golang_server.go | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..5bd5789 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -132,11 +132,11 @@ func (gen *Generator) EmitClient() {
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
-	case "String":
+	case "String", "UUID":
 		return `""`
-	case "Int8", "Int16", "Int32", "Int64":
+	case "Int8", "Int16", "Int32", "Int64", "Enum":
 		return "0"
-	case "Float32", "Float64", "Decimal":
+	case "Float32", "Float64":
 		return "0.0"
 	case "Bool":
 		return "false"
diff --git a/golang/golang_server.go b/golang/golang_server.go
index 49cc654..a013b83 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -107,7 +107,9 @@ func (gen *Generator) EmitServerAdaptor() {
 			for _, out := range gen.expected(hd).Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
-					s = s + "\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					s = s + "\t\tif res." + name + " != " + gen.notSet(out.Type) + " {\n"
+					s = s + "\t\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					s = s + "\t\t}\n"
 				}
 			}
 			return s
-- 
2.43.0


From 3ddb4f89c9520ba5310f40cbbe2b887bf44f4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 063/144] fix: Go client: NewClient creates the client of the
 service at hand

---
 golang/golang_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 5bd5789..e8a44fa 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -164,8 +164,8 @@ type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
-- 
2.43.0


From 13c28c34c4b6adf6d575bd695258387eb4037b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 064/144] fix: Go client: send every path, query and header
 input under its wire name, escaped

---
 golang/golang_client.go | 91 +++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 36 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index e8a44fa..f1c3816 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -23,12 +23,11 @@ func (gen *Generator) CreateClient() {
 
 func (gen *Generator) EmitClient() {
 	gen.imports = nil
-	gen.addImport("encoding/json")
-	gen.addImport("fmt")
-	gen.addImport("net/http")
-	//	gen.addImport("net/url")
-	gen.addImport("strings")
-	//	gen.addImport("time")
+	if len(gen.Model.Http) > 0 {
+		gen.addImport("fmt")
+		gen.addImport("net/http")
+		gen.addImport("net/url")
+	}
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"clientName":  func() string { return sadl.Capitalize(gen.Name) + "Client" },
@@ -45,15 +44,17 @@ func (gen *Generator) EmitClient() {
 			}
 			return ""
 		},
+		"reqBody": func(hd *sadl.HttpDef) string {
+			if in := gen.bodyInput(hd); in != nil {
+				gen.addImport("bytes")
+				gen.addImport("encoding/json")
+				return "\tbody, err := json.Marshal(req." + sadl.Capitalize(in.Name) + ")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n"
+			}
+			return ""
+		},
 		"reqBodyReader": func(hd *sadl.HttpDef) string {
-			switch hd.Method {
-			case "PUT", "POST", "PATCH":
-				for _, in := range hd.Inputs {
-					if !in.Path && in.Query == "" && in.Header == "" {
-						gen.addImport("bytes")
-						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
-					}
-				}
+			if gen.bodyInput(hd) != nil {
+				return "bytes.NewReader(body)"
 			}
 			return "nil"
 		},
@@ -62,7 +63,19 @@ func (gen *Generator) EmitClient() {
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
 					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					s = s + fmt.Sprintf("\t\targs.Set(%q, fmt.Sprint(req.%s))\n", in.Query, sadl.Capitalize(in.Name))
+					s = s + "\t}\n"
+				}
+			}
+			return s
+		},
+		"headerParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					name := sadl.Capitalize(in.Name)
+					s = s + "\tif req." + name + " != " + gen.notSet(in.Type) + " {\n"
+					s = s + fmt.Sprintf("\t\threq.Header.Set(%q, fmt.Sprint(req.%s))\n", in.Header, name)
 					s = s + "\t}\n"
 				}
 			}
@@ -78,7 +91,13 @@ func (gen *Generator) EmitClient() {
 			if i >= 0 {
 				path = path[0:i]
 			}
-			return path
+			expr := fmt.Sprintf("%q", path)
+			for _, in := range hd.Inputs {
+				if in.Path {
+					expr = strings.Replace(expr, "{"+in.Name+"}", "\" + url.PathEscape(fmt.Sprint(req."+sadl.Capitalize(in.Name)+")) + \"", -1)
+				}
+			}
+			return expr
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
 			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
@@ -93,6 +112,7 @@ func (gen *Generator) EmitClient() {
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					s = s + "\t\tvar entity " + natType + "\n"
+					gen.addImport("encoding/json")
 					s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&entity)\n"
 					s = s + "\t\tif err != nil {\n"
 					s = s + "\t\t\treturn nil, err\n"
@@ -117,6 +137,7 @@ func (gen *Generator) EmitClient() {
 				natType := gen.nativeType(es.Type)
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				s = s + "\t\tvar errEntity " + natType + "\n"
+				gen.addImport("encoding/json")
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
 				s = s + "\t\tif err != nil {\n"
 				s = s + "\t\t\treturn nil, err\n"
@@ -129,6 +150,18 @@ func (gen *Generator) EmitClient() {
 	gen.EmitTemplate("client", clientTemplate, gen, funcMap)
 }
 
+func (gen *Generator) bodyInput(hd *sadl.HttpDef) *sadl.HttpParamSpec {
+	switch hd.Method {
+	case "PUT", "POST", "PATCH":
+		for _, in := range hd.Inputs {
+			if !in.Path && in.Query == "" && in.Header == "" {
+				return in
+			}
+		}
+	}
+	return nil
+}
+
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
@@ -145,20 +178,6 @@ func (gen *Generator) notSet(sadlType string) string {
 	}
 }
 
-func (gen *Generator) typeFormat(sadlType string) string {
-	bt := gen.baseType(sadlType)
-	switch bt {
-	case "String":
-		return "%s"
-	case "Int8", "Int16", "Int32", "Int64":
-		return "%d"
-	case "Float32", "Float64", "Decimal":
-		return "&g"
-	default:
-		return "%v"
-	}
-}
-
 var clientTemplate = `
 type {{clientName}} struct {
 	Target string
@@ -171,17 +190,17 @@ func NewClient(target string) (*{{clientName}}, error) {
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
-	var args []string
-{{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
+	target := client.Target + {{methodPath .}}
+	args := url.Values{}
+{{queryParams .}}{{reqBody .}}	if len(args) > 0 {
+		target = target + "?" + args.Encode()
 	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+	hreq, err := http.NewRequest("{{.Method}}", target, {{reqBodyReader .}})
 	if err != nil {
 		return nil, err
 	}
 {{requestEntityContentType .}}
-	res, err := http.DefaultClient.Do(hreq)
+{{headerParams .}}	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 980c5aac3a7455dde0f92942994f46f8d3ed8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:08 +0000
Subject: [PATCH 065/144] fix: Go client: read header outputs of every type,
 and default exceptions

---
 golang/golang_client.go | 14 +++++++++-----
 golang/golang_server.go |  4 ++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index f1c3816..2f45e9b 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -100,14 +100,14 @@ func (gen *Generator) EmitClient() {
 			return expr
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
-			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
+			s := fmt.Sprintf("\tcase %d:\n", gen.expected(hd).Status)
 			//			if hd.Expected.Status == 204 || hd.Expected.Status == 304 {
 			//				if len(hd.Expected.Outputs) == 0 {
 			//					return s + "\t\treturn nil, nil\n"
 			//				}
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
-			for _, out := range hd.Expected.Outputs {
+			for _, out := range gen.expected(hd).Outputs {
 				natType := gen.nativeType(out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
@@ -122,10 +122,10 @@ func (gen *Generator) EmitClient() {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
 					switch natType {
 					case "*Timestamp":
-						i = "TimestampFromString(" + i + ")"
+						s = s + "\t\tresponse." + name + " = TimestampFromString(" + i + ")\n"
 					default:
+						s = s + gen.textAssignment("\t\t", "response."+name, out.Type, i, "return nil, err")
 					}
-					s = s + "\t\tresponse." + name + " = " + i + "\n"
 				}
 			}
 			s = s + "\t\treturn response, nil\n"
@@ -135,7 +135,11 @@ func (gen *Generator) EmitClient() {
 			s := ""
 			for _, es := range hd.Exceptions {
 				natType := gen.nativeType(es.Type)
-				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
+				if es.Status == 0 {
+					s = s + "\tdefault:\n"
+				} else {
+					s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
+				}
 				s = s + "\t\tvar errEntity " + natType + "\n"
 				gen.addImport("encoding/json")
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
diff --git a/golang/golang_server.go b/golang/golang_server.go
index a013b83..4b591ad 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -40,8 +40,8 @@ func (gen *Generator) EmitServerAdaptor() {
 		gen.addImport("github.com/boynton/sadl")
 	}
 	funcMap := template.FuncMap{
-		"openBrace":   func() string { return "{" },
-		"backquote":   func() string { return "`" },
+		"openBrace": func() string { return "{" },
+		"backquote": func() string { return "`" },
 		"runtimePackage": func() string {
 			if gen.runtime {
 				return "sadl."
-- 
2.43.0


From c17d702e684ca4909fc0ba94b45c8825bd018013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 066/144] fix: Go client: results of inline array and map types
 get their declared type

---
 golang/golang_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 2f45e9b..4d3d9b4 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -108,7 +108,7 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range gen.expected(hd).Outputs {
-				natType := gen.nativeType(out.Type)
+				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					s = s + "\t\tvar entity " + natType + "\n"
-- 
2.43.0


From a678eed6dfd70bc9a0defeafa93a233523b6b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 067/144] fix: Go generator: maps with enum keys use the
 symbols as JSON keys

---
 golang/golang_model.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index f37f854..c6b5b47 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -239,16 +239,25 @@ func (e *{{.Name}}) UnmarshalJSON(b []byte) error {
     var s string
     err := json.Unmarshal(b, &s)
     if err == nil {
-        for v, s2 := range names{{.Name}} {
-            if s == s2 {
-                *e = {{.Name}}(v)
-                return nil
-             }
-        }
-        err = fmt.Errorf("Bad enum symbol for type {{.Name}}: %s", s)
+        err = e.UnmarshalText([]byte(s))
     }
     return err
 }
+
+func (e {{.Name}}) MarshalText() ([]byte, error) {
+    return []byte(e.String()), nil
+}
+
+func (e *{{.Name}}) UnmarshalText(b []byte) error {
+    s := string(b)
+    for v, s2 := range names{{.Name}} {
+        if s == s2 {
+            *e = {{.Name}}(v)
+            return nil
+        }
+    }
+    return fmt.Errorf("Bad enum symbol for type {{.Name}}: %s", s)
+}
 `
 
 func (gen *Generator) EmitDecimal() {
-- 
2.43.0


From ebbab9f5b502186907ffc2c18d8bb6b3309759b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:08 +0000
Subject: [PATCH 068/144] fix: Go client: import the runtime package only where
 the client uses it

---
 golang/golang_client.go | 7 +++----
 golang/golang_server.go | 5 ++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 4d3d9b4..82f2522 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -108,9 +108,9 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range gen.expected(hd).Outputs {
-				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
+					natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 					s = s + "\t\tvar entity " + natType + "\n"
 					gen.addImport("encoding/json")
 					s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&entity)\n"
@@ -120,10 +120,9 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
+					if out.Type == "Timestamp" && !gen.runtime {
 						s = s + "\t\tresponse." + name + " = TimestampFromString(" + i + ")\n"
-					default:
+					} else {
 						s = s + gen.textAssignment("\t\t", "response."+name, out.Type, i, "return nil, err")
 					}
 				}
diff --git a/golang/golang_server.go b/golang/golang_server.go
index 4b591ad..26ce5cb 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -179,12 +179,11 @@ func (gen *Generator) paramAssignment(in *sadl.HttpParamSpec, v string) string {
 
 // textAssignment emits the code that sets the target to the value the text stands for, unless the text is empty
 func (gen *Generator) textAssignment(indent, target, tname, text, onError string) string {
-	native := gen.nativeType(tname)
 	bt := gen.baseType(tname)
 	parse := ""
 	switch bt {
 	case "String", "UUID":
-		return indent + target + " = " + native + "(" + text + ")\n"
+		return indent + target + " = " + gen.nativeType(tname) + "(" + text + ")\n"
 	case "Bool":
 		parse = "strconv.ParseBool(s)"
 	case "Int8", "Int16", "Int32", "Int64":
@@ -207,7 +206,7 @@ func (gen *Generator) textAssignment(indent, target, tname, text, onError string
 	} else {
 		s = s + indent + "\tv, err := " + parse + "\n"
 		s = s + indent + "\tif err != nil {\n" + indent + "\t\t" + onError + "\n" + indent + "\t}\n"
-		s = s + indent + "\t" + target + " = " + native + "(v)\n"
+		s = s + indent + "\t" + target + " = " + gen.nativeType(tname) + "(v)\n"
 	}
 	if bt != "Decimal" {
 		gen.addImport("strconv")
-- 
2.43.0


From 91d1cb4e9a78be1c227abca81ab7ea4df7ba0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 069/144] fix: Java generator: use the configured domain

GetString takes a path of keys, so the configured domain was never found.
---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..58bfc52 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -97,7 +97,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.GetConfigString("domain", "")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
-- 
2.43.0


From 1c361a63f6882ded4eedd8f3cda6642aabd60f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 070/144] fix: Java generator: ignore exactly the Throwable
 properties a struct does not declare

A declared field was ignored whenever the struct had another field, and an
empty struct ignored none.
---
 java/export_java.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 58bfc52..ea35f37 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -262,11 +262,13 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	}
 	if extends != "" {
 		var ignoreFields []string
+		declared := make(map[string]bool, 0)
+		for _, fd := range ts.Fields {
+			declared[fd.Name] = true
+		}
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
-			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
-				}
+			if !declared[f] {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
 			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
-- 
2.43.0


From 70fd613ff6e673295b043ed7ec4b68ad8f772417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 071/144] fix: Java generator: report field names that are
 keywords as errors

---
 java/export_java.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index ea35f37..dd3c0c7 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -226,7 +226,12 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 
 func reservedKeyword(name string) bool {
 	switch name {
-	case "package":
+	case "abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const",
+		"continue", "default", "do", "double", "else", "enum", "extends", "final", "finally", "float",
+		"for", "goto", "if", "implements", "import", "instanceof", "int", "interface", "long", "native",
+		"new", "package", "private", "protected", "public", "return", "short", "static", "strictfp",
+		"super", "switch", "synchronized", "this", "throw", "throws", "transient", "try", "void",
+		"volatile", "while", "true", "false", "null", "_":
 		return true
 	}
 	return false
@@ -295,7 +300,8 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
-			panic("bad field name, clashes with a keyword: " + fname)
+			gen.Err = fmt.Errorf("bad field name, clashes with a keyword: %s", fname)
+			return
 		}
 		if fd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent+"    ", fd.Comment, 100, false))
-- 
2.43.0


From 99d85a1c04bb9214365dbccb1d510e3153ee8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 072/144] fix: Java generator: put the Timestamp class in the
 package that uses it

---
 java/java_timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_timestamp.go b/java/java_timestamp.go
index ecfbb07..41048ea 100644
--- a/java/java_timestamp.go
+++ b/java/java_timestamp.go
@@ -50,7 +50,7 @@ func (gen *Generator) CreateTimestamp() {
 	gen.Emit(javaTimestamp)
 	result := gen.End()
 	if gen.Err == nil {
-		gen.WriteJavaFile("Timestamp", result, gen.Package)
+		gen.WriteJavaFile("Timestamp", result, gen.ModelPackage)
 	}
 }
 
-- 
2.43.0


From 2bc7c659960d2968ab0cea4a1f538c9a13c221ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:40 +0000
Subject: [PATCH 073/144] fix: Java generator: escape enum values and patterns
 in string literals

---
 java/export_java.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index dd3c0c7..9df7a02 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -442,7 +442,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(\"" + val + "\")" + delim + comment)
+		gen.Emit("    " + sym + "(" + javaString(val) + ")" + delim + comment)
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
@@ -680,7 +680,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts != nil {
 			if ts.Pattern != "" {
 				gen.AddImport("javax.validation.constraints.Pattern")
-				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%q)", ts.Pattern))
+				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%s)", javaString(ts.Pattern)))
 			} else if ts.Values != nil {
 				//?
 			}
@@ -805,6 +805,31 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// javaString - the Java literal for a string.
+func javaString(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for _, r := range s {
+		switch {
+		case r == '"' || r == '\\':
+			b.WriteByte('\\')
+			b.WriteRune(r)
+		case r == '\n':
+			b.WriteString("\\n")
+		case r == '\r':
+			b.WriteString("\\r")
+		case r == '\t':
+			b.WriteString("\\t")
+		case r < ' ':
+			b.WriteString(fmt.Sprintf("\\%03o", r))
+		default:
+			b.WriteRune(r)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
 func javaPackageToPath(pkg string) string {
 	return strings.Join(strings.Split(pkg, "."), "/")
 }
-- 
2.43.0


From dfd060e9ccafce8319f98c8ef75fcb8c868a61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 074/144] fix: Java generator: range annotations are imported,
 well typed and kept for required fields

The imports were missing, float bounds and large bounds were not valid long
literals, and required primitive fields lost their range.
---
 java/export_java.go | 55 +++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 9df7a02..2c2ab7c 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -662,7 +662,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	var annotations []string
 	if required {
 		if isPrimitive {
-			return primitiveName, nil, nil
+			return primitiveName, gen.boundAnnotations(ts, primitiveName), nil
 		}
 		gen.AddImport("javax.validation.constraints.NotNull")
 		annotations = append(annotations, "@NotNull")
@@ -702,26 +702,10 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		}
 		return "String", annotations, nil
 	case "Byte", "Short", "Integer", "Long", "Float", "Double":
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
-			}
-		}
-		return name, annotations, nil
+		return name, append(annotations, gen.boundAnnotations(ts, primitiveName)...), nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
-			}
-		}
-		return "BigDecimal", annotations, nil
+		return "BigDecimal", append(annotations, gen.boundAnnotations(ts, name)...), nil
 	case "Timestamp":
 		if gen.UseInstants {
 			gen.AddImport("java.time.Instant")
@@ -778,14 +762,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
 			case "Decimal":
-				gen.AddImport("java.math.BigDecimal")
-				if td.Min != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
-				}
-				if td.Max != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
-				}
-				return "BigDecimal", annotations, nil
+				return gen.TypeName(&td.TypeSpec, "Decimal", required)
 			case "Timestamp":
 				if gen.UseInstants {
 					gen.AddImport("java.time.Instant")
@@ -805,6 +782,30 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// boundAnnotations - the annotations for the range of a number. Min and Max take a long.
+func (gen *Generator) boundAnnotations(ts *sadl.TypeSpec, kind string) []string {
+	var annotations []string
+	if ts == nil {
+		return nil
+	}
+	bound := func(name string, val *sadl.Decimal) {
+		if val == nil {
+			return
+		}
+		switch kind {
+		case "byte", "short", "int", "long":
+			annotations = append(annotations, fmt.Sprintf("@%s(%sL)", name, val.String()))
+		default:
+			name = "Decimal" + name
+			annotations = append(annotations, fmt.Sprintf("@%s(%q)", name, val.String()))
+		}
+		gen.AddImport("javax.validation.constraints." + name)
+	}
+	bound("Min", ts.Min)
+	bound("Max", ts.Max)
+	return annotations
+}
+
 // javaString - the Java literal for a string.
 func javaString(s string) string {
 	var b strings.Builder
-- 
2.43.0


From c7f571b4f63762c7ed5fe645856a2847dc619ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 075/144] fix: Java generator: Bytes and named Bool, Bytes and
 Any have Java types

They referred to classes that do not exist. Named arrays and maps keep whether
the field is required.
---
 java/export_java.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 2c2ab7c..e48edc6 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -746,21 +746,20 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		td := gen.Model.FindType(name)
 		if td != nil {
 			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
+			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "UUID", "Any":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
+			case "Bytes":
+				return "byte[]", annotations, nil
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
 			case "Array":
-				return gen.TypeName(&td.TypeSpec, "Array", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Array", required)
 			case "Map":
-				return gen.TypeName(&td.TypeSpec, "Map", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Map", required)
 			case "Struct":
 				if name == "Struct" {
 					return name, annotations, ts
 				}
-			case "UUID":
-				gen.AddImport("java.util.UUID")
-				return "UUID", annotations, nil
 			case "Decimal":
 				return gen.TypeName(&td.TypeSpec, "Decimal", required)
 			case "Timestamp":
-- 
2.43.0


From e2b306e12bd29103577aed374cf5c221be475cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 076/144] fix: Java generator: containers without item or key
 types do not crash

---
 java/export_java.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index e48edc6..9879efd 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -723,18 +723,15 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts == nil {
 			return "List", annotations, nil
 		}
-		td := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&td.TypeSpec, ts.Items, false)
+		items := gen.elementTypeName(ts.Items, "Any")
 		return "List<" + items + ">", annotations, nil
 	case "Map":
 		gen.AddImport("java.util.Map")
 		if ts == nil {
 			return "Map", annotations, nil
 		}
-		ktd := gen.Model.FindType(ts.Keys)
-		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
-		itd := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)
+		keys := gen.elementTypeName(ts.Keys, "String")
+		items := gen.elementTypeName(ts.Items, "Any")
 		return "Map<" + keys + "," + items + ">", annotations, nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
@@ -781,6 +778,22 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// elementTypeName - the type of the keys or items of a container, which need not be specified.
+func (gen *Generator) elementTypeName(name string, defaultName string) string {
+	if name == "" {
+		name = defaultName
+	}
+	td := gen.Model.FindType(name)
+	if td == nil {
+		if gen.Err == nil {
+			gen.Err = fmt.Errorf("Undefined type: %s", name)
+		}
+		return name
+	}
+	tn, _, _ := gen.TypeName(&td.TypeSpec, name, false)
+	return tn
+}
+
 // boundAnnotations - the annotations for the range of a number. Min and Max take a long.
 func (gen *Generator) boundAnnotations(ts *sadl.TypeSpec, kind string) []string {
 	var annotations []string
-- 
2.43.0


From 857ab9532cac03bfd302452f1c65cc3467c5897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 077/144] fix: Java generator: report inline enums, unions and
 unit values as errors

They referred to classes that do not exist, or to java.lang.Enum.
---
 java/export_java.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 9879efd..1eb75bc 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -757,6 +757,10 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				if name == "Struct" {
 					return name, annotations, ts
 				}
+			case "Enum", "Union", "UnitValue":
+				if name == td.Type && gen.Err == nil {
+					gen.Err = fmt.Errorf("Cannot generate a Java class for an inline type, define it by name: %s", name)
+				}
 			case "Decimal":
 				return gen.TypeName(&td.TypeSpec, "Decimal", required)
 			case "Timestamp":
-- 
2.43.0


From c49bfaf8369f67ad692cdbd604783d63203a9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 078/144] fix: Java generator: instants are converted wherever
 they occur

Named timestamps of immutable classes, timestamps of mutable classes and
unions, and timestamps in lists and maps had no deserializer.
---
 java/export_java.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 1eb75bc..af5db24 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -402,11 +402,10 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
-		if fd.Type == "Timestamp" {
-			if gen.UseInstants {
-				gen.NeedUtil = true
-				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
+		tn, tanno, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		for _, anno := range tanno {
+			if strings.HasPrefix(anno, "@JsonDeserialize(") {
+				gen.Emit(indent + "    " + anno + "\n")
 			}
 		}
 		gen.Emit(indent + "    public " + builderClass + " " + fd.Name + "(" + tn + " " + fd.Name + ") {\n")
@@ -711,7 +710,8 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			gen.AddImport("java.time.Instant")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
-			annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
+			annotations = append(annotations, "@JsonDeserialize(using = Util.InstantDeserializer.class)")
+			annotations = append(annotations, "@JsonSerialize(using = Util.InstantSerializer.class)")
 			gen.NeedUtil = true
 			gen.NeedInstant = true
 			return "Instant", annotations, nil
@@ -724,7 +724,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			return "List", annotations, nil
 		}
 		items := gen.elementTypeName(ts.Items, "Any")
-		return "List<" + items + ">", annotations, nil
+		return "List<" + items + ">", append(annotations, gen.contentAnnotations(items)...), nil
 	case "Map":
 		gen.AddImport("java.util.Map")
 		if ts == nil {
@@ -732,7 +732,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		}
 		keys := gen.elementTypeName(ts.Keys, "String")
 		items := gen.elementTypeName(ts.Items, "Any")
-		return "Map<" + keys + "," + items + ">", annotations, nil
+		return "Map<" + keys + "," + items + ">", append(annotations, gen.contentAnnotations(items)...), nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
@@ -764,18 +764,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			case "Decimal":
 				return gen.TypeName(&td.TypeSpec, "Decimal", required)
 			case "Timestamp":
-				if gen.UseInstants {
-					gen.AddImport("java.time.Instant")
-					gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
-					gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
-					annotations = append(annotations, fmt.Sprintf("@JsonDeserialize(using = Util.InstantDeserializer.class)"))
-					annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
-					gen.NeedUtil = true
-					gen.NeedInstant = true
-					return "Instant", annotations, nil
-				}
-				gen.NeedTimestamp = true
-				return "Timestamp", annotations, nil
+				return gen.TypeName(&td.TypeSpec, "Timestamp", required)
 			}
 		}
 		return name, annotations, nil
@@ -798,6 +787,17 @@ func (gen *Generator) elementTypeName(name string, defaultName string) string {
 	return tn
 }
 
+// contentAnnotations - containers of instants need to say how to convert the items.
+func (gen *Generator) contentAnnotations(items string) []string {
+	if items != "Instant" || !gen.UseInstants {
+		return nil
+	}
+	return []string{
+		"@JsonDeserialize(contentUsing = Util.InstantDeserializer.class)",
+		"@JsonSerialize(contentUsing = Util.InstantSerializer.class)",
+	}
+}
+
 // boundAnnotations - the annotations for the range of a number. Min and Max take a long.
 func (gen *Generator) boundAnnotations(ts *sadl.TypeSpec, kind string) []string {
 	var annotations []string
-- 
2.43.0


From 86f5b3008b6c6da9e79cd07be50450d52414f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 079/144] fix: Java generator: fractional bounds of integers
 are decimal bounds

---
 java/export_java.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index af5db24..db681ad 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -808,10 +808,10 @@ func (gen *Generator) boundAnnotations(ts *sadl.TypeSpec, kind string) []string
 		if val == nil {
 			return
 		}
-		switch kind {
-		case "byte", "short", "int", "long":
+		integral := kind == "byte" || kind == "short" || kind == "int" || kind == "long"
+		if integral && !strings.ContainsAny(val.String(), ".eE") {
 			annotations = append(annotations, fmt.Sprintf("@%s(%sL)", name, val.String()))
-		default:
+		} else {
 			name = "Decimal" + name
 			annotations = append(annotations, fmt.Sprintf("@%s(%q)", name, val.String()))
 		}
-- 
2.43.0


From f62979db53c31e25a7bd43de918032d3bfb4f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 080/144] fix: Java generator: members with an inline struct
 type use its nested class everywhere

Constructors, getters, builders and unions referred to a class named Struct, and
the nested classes came in random order.
---
 java/export_java.go | 46 ++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index db681ad..3fdd828 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -296,6 +296,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	} else {
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
 	}
+	var nestedNames []string
 	nested := make(map[string]*sadl.TypeSpec, 0)
 	for _, fd := range ts.Fields {
 		fname := fd.Name
@@ -309,14 +310,14 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		if !fd.Required {
 			gen.Emit(indent + "    @JsonInclude(JsonInclude.Include.NON_EMPTY) /* Optional field */\n")
 		}
-		tn, tanno, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, tanno, anonymous := gen.MemberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		if anonymous != nil {
-			tn = gen.Capitalize(fname)
 			if tn == className {
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
 			nested[tn] = anonymous
+			nestedNames = append(nestedNames, tn)
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -350,18 +351,27 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 `)
 		}
 		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
+			for _, iname := range nestedNames {
+				gen.CreateStructPojo(nested[iname], iname, indent+"    ", nil)
 			}
 		}
 	}
-	gen.Emit("}\n")
+	gen.Emit(indent + "}\n")
+}
+
+// MemberTypeName - the type of a member. An inline struct is a nested class named after the member.
+func (gen *Generator) MemberTypeName(ts *sadl.TypeSpec, name string, required bool) (string, []string, *sadl.TypeSpec) {
+	tn, annotations, anonymous := gen.TypeName(ts, ts.Type, required)
+	if anonymous != nil {
+		tn = gen.Capitalize(name)
+	}
+	return tn, annotations, anonymous
 }
 
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, _, _ := gen.MemberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -372,7 +382,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn, _, _ := gen.MemberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -389,7 +399,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, _, _ := gen.MemberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -402,7 +412,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, tanno, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn, tanno, _ := gen.MemberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		for _, anno := range tanno {
 			if strings.HasPrefix(anno, "@JsonDeserialize(") {
 				gen.Emit(indent + "    " + anno + "\n")
@@ -503,6 +513,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 	gen.Emit(indent1 + "@JsonIgnore\n")
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
+	var nestedNames []string
 	nested := make(map[string]*sadl.TypeSpec, 0)
 	for _, vd := range td.Variants {
 		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
@@ -510,14 +521,14 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if vd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
 		}
-		tn, tanno, anonymous := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn, tanno, anonymous := gen.MemberTypeName(&vd.TypeSpec, vd.Name, false)
 		if anonymous != nil {
-			tn = gen.Capitalize(vd.Name)
 			if tn == className {
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
 			nested[tn] = anonymous
+			nestedNames = append(nestedNames, tn)
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -535,7 +546,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if i == max-1 {
 			delim = ""
 		}
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn, _, _ := gen.MemberTypeName(&vd.TypeSpec, vd.Name, false)
 		gen.Emit("@JsonProperty(\"" + vd.Name + "\") " + tn + " " + vd.Name + delim)
 	}
 	gen.Emit(") {\n")
@@ -548,7 +559,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 
 	for _, vd := range td.Variants {
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn, _, _ := gen.MemberTypeName(&vd.TypeSpec, vd.Name, false)
 		gen.Emit("\n" + indent1 + "public static " + className + " of" + gen.Capitalize(vd.Name) + "(" + tn + " v) {\n")
 		gen.Emit(indent2 + "return new " + className + "(")
 		delim = ", "
@@ -575,8 +586,8 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 `)
 	}
 	if len(nested) > 0 {
-		for iname, ispec := range nested {
-			gen.CreateStructPojo(ispec, iname, indent1, nil)
+		for _, iname := range nestedNames {
+			gen.CreateStructPojo(nested[iname], iname, indent1, nil)
 		}
 	}
 	gen.Emit("}\n")
@@ -645,11 +656,8 @@ func (gen *Generator) EmitFluidSetter(className string, ts *sadl.TypeSpec, fd *s
 	if gen.Err != nil {
 		return
 	}
-	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn, _, _ := gen.MemberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 	//fixme: the annotations are getting ignored. Figure out if this is preferred or not
-	if anonymous != nil {
-		tn = gen.Capitalize(fd.Name)
-	}
 	gen.Emit(indent + "    public " + className + " " + fd.Name + "(" + tn + " val) {\n")
 	gen.Emit(indent + "        this." + fd.Name + " = val;\n")
 	gen.Emit(indent + "        return this;\n")
-- 
2.43.0


From a8c53c97cc0c37cbcf2b16019b4d3383bc3c4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 081/144] fix: Java generator: unit value classes import what
 they use

JsonCreator was not imported, and a unit value without explicit types crashed
the generator. The unit is everything after the value.
---
 java/export_java.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 3fdd828..a59b8d8 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -596,10 +596,18 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.Emit("public class " + className + " {\n\n")
 
-	valueType, _, _ := gen.TypeName(ts, ts.Value, true) //this type must be  primitive numeric type
-	unitType, _, _ := gen.TypeName(ts, ts.Unit, true)
+	valueName, unitName := ts.Value, ts.Unit
+	if valueName == "" {
+		valueName = "Decimal"
+	}
+	if unitName == "" {
+		unitName = "String"
+	}
+	valueType, _, _ := gen.TypeName(ts, valueName, true) //this type must be  primitive numeric type
+	unitType, _, _ := gen.TypeName(ts, unitName, true)
 	if gen.Err != nil {
 		return
 	}
@@ -638,7 +646,7 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	}
 	gen.Emit("    @JsonCreator\n")
 	gen.Emit("    public " + className + "(@NotNull String repr) {\n")
-	gen.Emit("        String[] tmp = repr.split(\" \");\n")
+	gen.Emit("        String[] tmp = repr.split(\" \", 2);\n")
 	gen.Emit("        this.value = " + v + ";\n")
 	gen.Emit("        this.unit = " + u + ";\n")
 	gen.Emit("    }\n\n")
-- 
2.43.0


From 2a2e85a760d453b402da7afe65fed04f24388011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 082/144] fix: Java generator: server and client use the
 configured service name

They used the name of the model while the interface they implement used the
configured name; without a name the generator crashed.
---
 java/java_client.go |  9 ++++++++-
 java/java_server.go | 10 +++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index a2fac2d..8d410b4 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -29,6 +29,9 @@ func (gen *Generator) CreateClient() {
 		return
 	}
 	gen.CreateClientDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateClientConfig()
 	gen.CreateJavaFileFromTemplate(gen.ClientData.Name, clientTemplate, gen.ClientData, gen.ClientData.Funcs, gen.ClientPackage)
 }
@@ -37,7 +40,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	if gen.Err != nil {
 		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("Cannot generate a client without a service name")
+		return
+	}
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
diff --git a/java/java_server.go b/java/java_server.go
index a63b750..03f8b45 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -45,6 +45,9 @@ func (gen *Generator) CreateServer() {
 		return
 	}
 	gen.CreateServerDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateJavaFileFromTemplate(gen.ServerData.ResourcesClass, resourcesTemplate, gen.ServerData, gen.ServerData.Funcs, gen.ServerPackage)
 	if gen.ServerImpl {
 		gen.CreateJavaFileFromTemplate(gen.ServerData.MainClass, mainTemplate, gen.ServerData, gen.ServerData.Funcs, "")
@@ -77,10 +80,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	if gen.ServerData != nil {
 		return
 	}
-	if gen.Model.Name == "" {
-		panic("no model name!")
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("Cannot generate a server without a service name")
+		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
-- 
2.43.0


From 8d2ae740c69e7b60f24e1b9a3840fe46f5866ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:21 +0000
Subject: [PATCH 083/144] fix: Java generator: actions without an expected
 result do not crash

---
 java/java_client.go | 10 +++++-----
 java/java_model.go  | 10 +++++++++-
 java/java_server.go | 16 ++++++++--------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 8d410b4..ff57fce 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -62,7 +62,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		return gen.RequestType(name)
 	}
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range gen.expected(hact).Outputs {
 			if out.Header == "" {
 				tn, _, _ := gen.TypeName(nil, out.Type, true)
 				return out.Name, tn
@@ -129,15 +129,15 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				panic("fix me: method = " + hact.Method)
 			}
 			writer.WriteString("        switch (response.getStatus()) {\n")
-			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
-			if len(hact.Expected.Outputs) == 0 {
+			writer.WriteString("        case " + fmt.Sprint(gen.expected(hact).Status) + ":\n")
+			if len(gen.expected(hact).Outputs) == 0 {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
 					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
 				}
-				for _, out := range hact.Expected.Outputs {
+				for _, out := range gen.expected(hact).Outputs {
 					if out.Header != "" {
 						tn, _, _ := gen.TypeName(nil, out.Type, true)
 						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
@@ -149,7 +149,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
-				for _, out := range hact.Expected.Outputs {
+				for _, out := range gen.expected(hact).Outputs {
 					if out.Header != "" {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
diff --git a/java/java_model.go b/java/java_model.go
index 3c33589..81ebe2b 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -30,8 +30,16 @@ func (gen *Generator) CreateModel() {
 	}
 }
 
+// expected - the expected result of an action. By default there is none, and the status is 200.
+func (gen *Generator) expected(hact *sadl.HttpDef) *sadl.HttpExpectedSpec {
+	if hact.Expected == nil {
+		return &sadl.HttpExpectedSpec{Status: 200}
+	}
+	return hact.Expected
+}
+
 func (gen *Generator) entityNameType(hact *sadl.HttpDef) (string, string) {
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range gen.expected(hact).Outputs {
 		if out.Header == "" {
 			tn, _, _ := gen.TypeName(nil, out.Type, true)
 			return out.Name, tn
diff --git a/java/java_server.go b/java/java_server.go
index 03f8b45..36105d6 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -103,7 +103,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	gen.ServerData.InterfaceClass = serviceName
 	gen.ServerData.ImplClass = serviceName + "Controller" //add version here?
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range gen.expected(hact).Outputs {
 			if out.Header == "" {
 				tn, _, _ := gen.TypeName(nil, out.Type, true)
 				return out.Name, tn
@@ -248,7 +248,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			}
 			writer.WriteString(";\n")
 			writer.WriteString("        try {\n")
-			if len(hact.Expected.Outputs) > 0 {
+			if len(gen.expected(hact).Outputs) > 0 {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
@@ -258,8 +258,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
 					}
 				}
-				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
-				for _, out := range hact.Expected.Outputs {
+				ret := fmt.Sprintf("Response.status(%d)", gen.expected(hact).Status)
+				for _, out := range gen.expected(hact).Outputs {
 					if out.Header != "" {
 						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
 					}
@@ -270,7 +270,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return " + ret + ".build();\n")
 			} else {
 				writer.WriteString("            " + implName(iname) + "." + name + "(req);\n")
-				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", hact.Expected.Status))
+				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", gen.expected(hact).Status))
 			}
 
 			if gen.Config.GetBool("service-exception") {
@@ -432,7 +432,7 @@ func (gen *Generator) CreateRequestPojo(hact *sadl.HttpDef) {
 }
 
 func (gen *Generator) responsePojoName(hact *sadl.HttpDef) (string, bool) {
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range gen.expected(hact).Outputs {
 		if out.Header == "" {
 			tn, _, _ := gen.TypeName(nil, out.Type, true)
 			return tn, false
@@ -449,7 +449,7 @@ func (gen *Generator) CreateResponsePojo(hact *sadl.HttpDef) {
 	ts := &sadl.TypeSpec{
 		Type: "Struct",
 	}
-	for _, spec := range hact.Expected.Outputs {
+	for _, spec := range gen.expected(hact).Outputs {
 		ts.Fields = append(ts.Fields, &spec.StructFieldDef)
 	}
 	gen.CreatePojo(ts, className, "", nil)
@@ -464,7 +464,7 @@ func (gen *Generator) ActionInfo(hact *sadl.HttpDef) (string, string) {
 			}
 		}
 	default:
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range gen.expected(hact).Outputs {
 			if out.Header == "" {
 				return out.Name, out.Type
 			}
-- 
2.43.0


From f6da22d7d897414bae96a2294d59f9803300e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:59 +0000
Subject: [PATCH 084/144] fix: Java generator: the message of a mutable
 exception is its message member

The inherited getMessage hid the member, so the message was lost.
---
 java/export_java.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index a59b8d8..c1488c2 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -340,6 +340,11 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		} else {
 			for _, fd := range ts.Fields {
 				gen.EmitFluidSetter(className, ts, fd, indent)
+				if extends != "" && fd.Name == "message" {
+					//or else the inherited getter hides the member
+					gen.Emit(indent + "    @Override\n")
+					gen.EmitGetter(className, ts, fd, indent)
+				}
 			}
 		}
 		if gen.UseJsonPretty {
-- 
2.43.0


From 10d302cbd5985f6800e62757c8940b0729fcf14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 085/144] fix: Java server: parameters and results of inline
 container types have their item types

A list in the request body was a list of untyped maps. BigDecimal is imported.
---
 java/java_model.go  | 2 +-
 java/java_server.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/java/java_model.go b/java/java_model.go
index 81ebe2b..60679db 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -41,7 +41,7 @@ func (gen *Generator) expected(hact *sadl.HttpDef) *sadl.HttpExpectedSpec {
 func (gen *Generator) entityNameType(hact *sadl.HttpDef) (string, string) {
 	for _, out := range gen.expected(hact).Outputs {
 		if out.Header == "" {
-			tn, _, _ := gen.TypeName(nil, out.Type, true)
+			tn, _, _ := gen.TypeName(&out.TypeSpec, out.Type, true)
 			return out.Name, tn
 		}
 	}
diff --git a/java/java_server.go b/java/java_server.go
index 36105d6..0c9c307 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -105,7 +105,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
 		for _, out := range gen.expected(hact).Outputs {
 			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
+				tn, _, _ := gen.TypeName(&out.TypeSpec, out.Type, true)
 				return out.Name, tn
 			}
 		}
@@ -195,7 +195,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			name := gen.ActionName(hact) //i.e. "getFoo"
 			var params []string
 			for _, in := range hact.Inputs {
-				tn, _, _ := gen.TypeName(nil, in.Type, false)
+				tn, _, _ := gen.TypeName(&in.TypeSpec, in.Type, false)
 				param := tn + " " + in.Name
 				if in.Query != "" {
 					param = `@QueryParam("` + in.Query + `") ` + param
@@ -377,6 +377,7 @@ public class {{.MainClass}} {
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
 import java.util.*;
+import java.math.BigDecimal;
 import java.time.Instant;
 import javax.inject.Inject;
 import javax.ws.rs.*;
@@ -434,7 +435,7 @@ func (gen *Generator) CreateRequestPojo(hact *sadl.HttpDef) {
 func (gen *Generator) responsePojoName(hact *sadl.HttpDef) (string, bool) {
 	for _, out := range gen.expected(hact).Outputs {
 		if out.Header == "" {
-			tn, _, _ := gen.TypeName(nil, out.Type, true)
+			tn, _, _ := gen.TypeName(&out.TypeSpec, out.Type, true)
 			return tn, false
 		}
 	}
-- 
2.43.0


From e0886536c8d485b63f291fdbbbd1705c64f2c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 086/144] fix: Java server: default values read from JSON do
 not crash the generator

---
 java/java_server.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index 0c9c307..4341e7f 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -207,14 +208,19 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				if in.Default != nil {
 					switch b := in.Default.(type) {
 					case *string:
-						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
+						param = "@DefaultValue(" + javaString(*b) + ") " + param
 					case *sadl.Decimal:
 						param = fmt.Sprintf("@DefaultValue(%q)", (*b).String()) + " " + param
 					case bool:
 						param = fmt.Sprintf("@DefaultValue(\"%v\")", b) + " " + param
+					case string:
+						param = "@DefaultValue(" + javaString(b) + ") " + param
+					case float64:
+						param = "@DefaultValue(\"" + strconv.FormatFloat(b, 'f', -1, 64) + "\") " + param
 					default:
-						fmt.Println("Whoops:", sadl.Pretty(in.Default))
-						panic("HERE")
+						if gen.Err == nil {
+							gen.Err = fmt.Errorf("Unsupported default value for parameter %q: %v", in.Name, in.Default)
+						}
 					}
 				}
 				params = append(params, param)
-- 
2.43.0


From bfcde638d98bf8488764298f027b91cc1ef43dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 087/144] fix: Java server: header outputs of mutable responses
 are members, not getters

---
 java/java_server.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index 4341e7f..64f6059 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -258,16 +258,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					if gen.UseImmutable {
-						wrappedResult = gen.jsonWrapper(etype, "res.get"+gen.Capitalize(ename)+"()")
-					} else {
-						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
-					}
+					wrappedResult = gen.jsonWrapper(etype, gen.accessor("res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", gen.expected(hact).Status)
 				for _, out := range gen.expected(hact).Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.accessor("res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -500,6 +496,14 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// accessor - the expression for a member of a generated class
+func (gen *Generator) accessor(obj, name string) string {
+	if gen.UseImmutable {
+		return obj + ".get" + gen.Capitalize(name) + "()"
+	}
+	return obj + "." + name
+}
+
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
 	case "String":
-- 
2.43.0


From e7a32f25c05463109619f415d38e98ae23e4c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 088/144] fix: Java server: the default exception is answered
 with status 500, not 0

---
 java/java_server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index 64f6059..ca35a5f 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -292,7 +292,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 						} else {
 							writer.WriteString("            } else if (entity instanceof " + tn + ") {\n")
 						}
-						writer.WriteString(fmt.Sprintf("                status = %d;\n", resp.Status))
+						writer.WriteString(fmt.Sprintf("                status = %d;\n", exceptionStatus(resp)))
 						if resp.Status == 204 || resp.Status == 304 {
 							writer.WriteString("                entity = null;\n")
 							anyNull = true
@@ -310,7 +310,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            throw new WebApplicationException(Response.status(status).entity(entity).build());\n")
 			} else {
 				for _, resp := range hact.Exceptions {
-					status := fmt.Sprint(resp.Status)
+					status := fmt.Sprint(exceptionStatus(resp))
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
 					writer.WriteString("        } catch (" + tn + " e) {\n")
 					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(e).build());\n")
@@ -496,6 +496,14 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// exceptionStatus - the default exception has no status of its own
+func exceptionStatus(exc *sadl.HttpExceptionSpec) int32 {
+	if exc.Status == 0 {
+		return 500
+	}
+	return exc.Status
+}
+
 // accessor - the expression for a member of a generated class
 func (gen *Generator) accessor(obj, name string) string {
 	if gen.UseImmutable {
-- 
2.43.0


From eb3bb0183763d62ad639f26c467beb9d567bf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 089/144] fix: Java server: a string in the request body is
 JSON, as in the response body

---
 java/java_model.go  |  5 +++++
 java/java_server.go | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/java/java_model.go b/java/java_model.go
index 60679db..7d5af70 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -71,6 +71,11 @@ func (gen *Generator) CreateInterface() {
 		if etype == "String" {
 			gen.NeedUtil = true
 		}
+		for _, in := range hact.Inputs {
+			if gen.isStringBody(in) {
+				gen.NeedUtil = true
+			}
+		}
 	}
 }
 
diff --git a/java/java_server.go b/java/java_server.go
index ca35a5f..301fccc 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -235,8 +235,13 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			reqname := reqType(name)
 			resname := gen.ResponseType(gen.ActionName(hact))
 			var params []string
+			values := make(map[string]string, 0)
 			for _, in := range hact.Inputs {
 				params = append(params, in.Name)
+				values[in.Name] = in.Name
+				if gen.isStringBody(in) {
+					values[in.Name] = "Util.fromJson(" + in.Name + ", String.class)"
+				}
 			}
 			ename, etype := entityNameType(hact)
 			var b bytes.Buffer
@@ -247,7 +252,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
 			}
 			for _, p := range params {
-				writer.WriteString("." + p + "(" + p + ")")
+				writer.WriteString("." + p + "(" + values[p] + ")")
 			}
 			if gen.UseImmutable {
 				writer.WriteString(".build()")
@@ -496,6 +501,15 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// isStringBody - JAX-RS leaves a string entity alone, so its JSON representation is made explicitly
+func (gen *Generator) isStringBody(in *sadl.HttpParamSpec) bool {
+	if in.Path || in.Query != "" || in.Header != "" {
+		return false
+	}
+	tn, _, _ := gen.TypeName(&in.TypeSpec, in.Type, true)
+	return tn == "String"
+}
+
 // exceptionStatus - the default exception has no status of its own
 func exceptionStatus(exc *sadl.HttpExceptionSpec) int32 {
 	if exc.Status == 0 {
-- 
2.43.0


From dd7c29135de3c548be79ad5e9e49211059ce05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 090/144] fix: Java client: all HTTP methods, requests without
 a body, mutable requests

PATCH, HEAD and OPTIONS crashed the generator, a POST without a body referred to
a member that does not exist, and members were read through getters that
mutable classes do not have.
---
 java/java_client.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index ff57fce..4730550 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -104,7 +104,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			path := pq[0]
 			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
-				src := "req.get" + gen.Capitalize(in.Name) + "()"
+				src := gen.accessor("req", in.Name)
 				if in.Path {
 					writer.WriteString("\n            .resolveTemplate(\"" + in.Name + "\", " + src + ", true)")
 				} else if in.Query != "" {
@@ -114,19 +114,29 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n        Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)")
 			for _, in := range hact.Inputs {
 				if in.Header != "" {
-					src := "req.get" + gen.Capitalize(in.Name) + "()"
+					src := gen.accessor("req", in.Name)
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
 			switch hact.Method {
-			case "PUT", "POST":
-				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(req.get" + gen.Capitalize(ename) + "(), MediaType.APPLICATION_JSON)"
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
-			case "GET", "DELETE":
+			case "PUT", "POST", "PATCH":
+				content := "\"\""
+				for _, in := range hact.Inputs {
+					if !in.Path && in.Query == "" && in.Header == "" {
+						content = gen.accessor("req", in.Name)
+						if gen.isStringBody(in) {
+							content = "Util.toJson(" + content + ")"
+						}
+					}
+				}
+				src := "Entity.entity(" + content + ", MediaType.APPLICATION_JSON)"
+				writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\", " + src + ");\n")
+			case "GET", "DELETE", "HEAD", "OPTIONS":
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
 			default:
-				panic("fix me: method = " + hact.Method)
+				if gen.Err == nil {
+					gen.Err = fmt.Errorf("Unsupported HTTP method: %s", hact.Method)
+				}
 			}
 			writer.WriteString("        switch (response.getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(gen.expected(hact).Status) + ":\n")
-- 
2.43.0


From 0cddf7a946a77e378cf02d61e8a5d5e18be87b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 091/144] fix: Java client: results of every type are read

Only struct entities and string and instant headers compiled; strings kept their
JSON quotes; mutable responses have no builder.
---
 java/java_client.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 4730550..728f615 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -64,7 +64,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
 		for _, out := range gen.expected(hact).Outputs {
 			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
+				tn, _, _ := gen.TypeName(&out.TypeSpec, out.Type, false)
 				return out.Name, tn
 			}
 		}
@@ -74,8 +74,14 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		switch typename {
 		case "Instant":
 			return "Instant.parse(" + val + ")"
-		default:
+		case "Timestamp", "BigDecimal":
+			return "new " + typename + "(" + val + ")"
+		case "Boolean", "Byte", "Short", "Integer", "Long", "Float", "Double":
+			return typename + ".valueOf(" + val + ")"
+		case "String":
 			return val
+		default: //UUID or an enum
+			return typename + ".fromString(" + val + ")"
 		}
 	}
 
@@ -144,18 +150,28 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := entityNameType(hact)
-				if etype != "void" {
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
+				if etype == "String" {
+					writer.WriteString("            String " + ename + " = Util.fromJson(response.readEntity(String.class), String.class);\n")
+				} else if etype != "void" {
+					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(new GenericType<" + etype + ">() {});\n")
 				}
 				for _, out := range gen.expected(hact).Outputs {
 					if out.Header != "" {
-						tn, _, _ := gen.TypeName(nil, out.Type, true)
-						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
+						tn, _, _ := gen.TypeName(&out.TypeSpec, out.Type, false)
+						header := "response.getHeaderString(\"" + out.Header + "\")"
+						osrc := fromString(tn, header)
+						if osrc != header {
+							osrc = header + " == null ? null : " + osrc
+						}
 						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
 					}
 				}
-				responseType := gen.ResponseType(hact.Name)
-				writer.WriteString("            return " + responseType + ".builder()\n")
+				responseType := gen.ResponseType(gen.ActionName(hact))
+				if gen.UseImmutable {
+					writer.WriteString("            return " + responseType + ".builder()\n")
+				} else {
+					writer.WriteString("            return new " + responseType + "()\n")
+				}
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
@@ -164,7 +180,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
 				}
-				writer.WriteString("                .build();\n")
+				if gen.UseImmutable {
+					writer.WriteString("                .build();\n")
+				} else {
+					writer.WriteString("                ;\n")
+				}
 			}
 			for _, exc := range hact.Exceptions {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
@@ -200,12 +220,17 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.time.Instant;
+import java.util.List;
+import java.util.Map;
+import java.util.UUID;
 import javax.ws.rs.client.Client;
 import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
 import javax.ws.rs.client.WebTarget;
 import javax.ws.rs.client.Invocation;
+import javax.ws.rs.core.GenericType;
 import javax.ws.rs.core.MediaType;
 import javax.ws.rs.core.Response;
 import javax.ws.rs.WebApplicationException;
-- 
2.43.0


From ded5f5f724ca7bd833126ba14a898a37d2fb9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 092/144] fix: Java client: default exceptions, and exceptions
 that are not throwable

The default exception was expected with status 0, and with service exceptions
the declared types cannot be thrown.
---
 java/java_client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 728f615..dcd9cf5 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -186,12 +186,21 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("                ;\n")
 				}
 			}
+			unexpected := "new RuntimeException(\"Unexpected service response status: \" + response.getStatus())"
 			for _, exc := range hact.Exceptions {
+				thrown := "response.readEntity(" + exc.Type + ".class)"
+				if gen.Config.GetBool("service-exception") {
+					thrown = "new ServiceException(\"" + exc.Type + "\").entity(" + thrown + ")"
+				}
+				if exc.Status == 0 { //the default exception
+					unexpected = "response.hasEntity() ? " + thrown + " : " + unexpected
+					continue
+				}
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
-				writer.WriteString("            throw response.readEntity(" + exc.Type + ".class);\n")
+				writer.WriteString("            throw " + thrown + ";\n")
 			}
 			writer.WriteString("        default:\n")
-			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
+			writer.WriteString("            throw " + unexpected + ";\n")
 			writer.WriteString("        }\n")
 			writer.Flush()
 			return b.String()
-- 
2.43.0


From 26ae1fe577f8e2013f6431fe94c2c42e0f26d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:03 +0000
Subject: [PATCH 093/144] fix: Java server: bodies of type Any that are strings
 are JSON

---
 java/java_client.go | 5 ++---
 java/java_model.go  | 9 ++++-----
 java/java_server.go | 3 ++-
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index dcd9cf5..7d6a7ed 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -130,9 +130,8 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				for _, in := range hact.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
 						content = gen.accessor("req", in.Name)
-						if gen.isStringBody(in) {
-							content = "Util.toJson(" + content + ")"
-						}
+						tn, _, _ := gen.TypeName(&in.TypeSpec, in.Type, true)
+						content = gen.jsonWrapper(tn, content)
 					}
 				}
 				src := "Entity.entity(" + content + ", MediaType.APPLICATION_JSON)"
diff --git a/java/java_model.go b/java/java_model.go
index 7d5af70..87a95d3 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -68,12 +68,11 @@ func (gen *Generator) CreateInterface() {
 		gen.CreateRequestPojo(hact)
 		gen.CreateResponsePojo(hact)
 		_, etype := gen.entityNameType(hact)
-		if etype == "String" {
-			gen.NeedUtil = true
-		}
+		gen.jsonWrapper(etype, "")
 		for _, in := range hact.Inputs {
-			if gen.isStringBody(in) {
-				gen.NeedUtil = true
+			if !in.Path && in.Query == "" && in.Header == "" {
+				tn, _, _ := gen.TypeName(&in.TypeSpec, in.Type, true)
+				gen.jsonWrapper(tn, "")
 			}
 		}
 	}
diff --git a/java/java_server.go b/java/java_server.go
index 301fccc..11bb479 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -526,9 +526,10 @@ func (gen *Generator) accessor(obj, name string) string {
 	return obj + "." + name
 }
 
+// jsonWrapper - JAX-RS leaves a string entity alone, and an Object can be a string
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
-	case "String":
+	case "String", "Object":
 		gen.NeedUtil = true
 		return "Util.toJson(" + val + ")"
 	default:
-- 
2.43.0


From 5b526bb8509c91d9e5c3d9211c6980843a5cdb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 094/144] fix: HTTP examples: traces appear in the order of the
 request examples

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..af5967c 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -43,12 +43,16 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var names []string //in the order of the requests
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
 			tmp := ex.Example.(map[string]interface{})
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -69,7 +73,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range names {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From 53454fe24bf863c29182c456ef102d90d8a9a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 095/144] fix: HTTP examples: parameters that are booleans, or
 read from JSON, are shown

---
 httptrace/export_http_examples.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index af5967c..7a08c78 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 
@@ -28,8 +29,13 @@ func stringExample(ex interface{}) string {
 		return *v
 	case *sadl.Decimal:
 		return v.String()
+	case float64:
+		return strconv.FormatFloat(v, 'f', -1, 64)
+	case nil:
+		return ""
+	default: //string or bool
+		return fmt.Sprint(v)
 	}
-	return ""
 }
 
 type exampleData struct {
-- 
2.43.0


From 957f627d1b8732ceb50c2ff978b9ba1ed63661f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 096/144] fix: HTTP examples: absent headers and bodies are
 left out of the trace

---
 httptrace/export_http_examples.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 7a08c78..cbcfe16 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -93,8 +93,12 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			headers := ""
 			
 			for _, in := range hdef.Inputs {
-				ex := reqExample[in.Name]
-				if in.Path || in.Query != "" {
+				ex, ok := reqExample[in.Name]
+				if !ok {
+					if in.Path || in.Query != "" {
+						path = strings.Replace(path, "{" + in.Name + "}", "", -1)
+					}
+				} else if in.Path || in.Query != "" {
 					sex := stringExample(ex)
 					if in.Path {
 						//inExample = urlEncode(inExample)
@@ -121,7 +125,10 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 
 				if data.exc == nil {
 					for _, out := range hdef.Expected.Outputs {
-						ex := resExample[out.Name]
+						ex, ok := resExample[out.Name]
+						if !ok {
+							continue
+						}
 						if out.Header != "" {
 							sex := stringExample(ex)
 							headers = headers + out.Header + ": " + sex + "\n"
-- 
2.43.0


From 43c59a33e28f271ba59c61670f163c3ecfad00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 097/144] fix: HTTP examples: path and query parameters are
 escaped, and those supplied are never dropped

---
 httptrace/export_http_examples.go | 54 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index cbcfe16..1fb649d 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"os"
 	"strconv"
 	"strings"
@@ -88,30 +89,22 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			body = body + "#   Request:"
 			
 			method := hdef.Method
-			path := hdef.Path
 			bodyExample := ""
 			headers := ""
 			
 			for _, in := range hdef.Inputs {
 				ex, ok := reqExample[in.Name]
-				if !ok {
-					if in.Path || in.Query != "" {
-						path = strings.Replace(path, "{" + in.Name + "}", "", -1)
-					}
-				} else if in.Path || in.Query != "" {
-					sex := stringExample(ex)
-					if in.Path {
-						//inExample = urlEncode(inExample)
-					}
-					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
-				} else if in.Header != "" {
+				if !ok || in.Path || in.Query != "" {
+					continue
+				}
+				if in.Header != "" {
 					sex := stringExample(ex)
 					headers = headers + in.Header + ": " + sex + "\n"
 				} else { //body
 					bodyExample = sadl.Pretty(ex)
 				}
 			}
-			path = stripMissingOptionalQueryParams(path)
+			path := requestTarget(hdef, reqExample)
 			headers = headers + "Accept: application/json\n"
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
 			body = body + "\n" + s + "\n"
@@ -158,22 +151,29 @@ func dateHeader() string {
 	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
 }
 
-func stripMissingOptionalQueryParams(uri string) string {
-	n := strings.Index(uri, "?")
-	if n < 0 {
-		return uri
+// requestTarget - the path and query of a request, with the parameters given in the example
+func requestTarget(hdef *sadl.HttpDef, example map[string]interface{}) string {
+	path := hdef.Path
+	var items, values []string
+	if n := strings.Index(path, "?"); n >= 0 {
+		for _, item := range strings.Split(path[n+1:], "&") {
+			if !strings.Contains(item, "{") { //not a parameter
+				items = append(items, item)
+			}
+		}
+		path = path[:n]
 	}
-	path := uri[:n+1]
-	query := uri[n+1:]
-	items := strings.Split(query, "&")
-	newItems := make([]string, 0)
-	for _, item := range items {
-		if !strings.HasSuffix(item, "=") {
-			newItems = append(newItems, item)
+	for _, in := range hdef.Inputs {
+		ex, ok := example[in.Name]
+		if in.Path {
+			values = append(values, "{"+in.Name+"}", url.PathEscape(stringExample(ex)))
+		} else if in.Query != "" && ok {
+			items = append(items, url.QueryEscape(in.Query)+"="+url.QueryEscape(stringExample(ex)))
 		}
 	}
-	if len(newItems) == 0 {
-		return path[:len(path)-1]
+	path = strings.NewReplacer(values...).Replace(path)
+	if len(items) > 0 {
+		path = path + "?" + strings.Join(items, "&")
 	}
-	return path + strings.Join(newItems, "&")
+	return path
 }
-- 
2.43.0


From da1191ae1074ba93e44e2d428af02f35a23aa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 098/144] fix: HTTP examples: default exceptions, and actions
 without an expected result

---
 httptrace/export_http_examples.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1fb649d..ea898b4 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -111,13 +111,17 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			
 			if resExample != nil {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				expected := hdef.Expected
+				if expected == nil { //by default there are no outputs
+					expected = &sadl.HttpExpectedSpec{Status: 200}
+				}
+				status := expected.Status
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
 				if data.exc == nil {
-					for _, out := range hdef.Expected.Outputs {
+					for _, out := range expected.Outputs {
 						ex, ok := resExample[out.Name]
 						if !ok {
 							continue
@@ -133,6 +137,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					}
 				} else {
 					status = data.exc.Status
+					if status == 0 { //the default exception
+						status = 500
+					}
 					bodyExample = sadl.Pretty(resExample)
 				}
 				headers = headers + "Date: " + dateHeader() + "\n"
-- 
2.43.0


From 241fc3cea7b9d872fd1bea1d6a51a2e29a5d1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 099/144] fix: HTTP examples: the Date header is in GMT

---
 httptrace/export_http_examples.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index ea898b4..2d04143 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -154,8 +154,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	return time.Now().UTC().Format(http.TimeFormat)
 }
 
 // requestTarget - the path and query of a request, with the parameters given in the example
-- 
2.43.0


From 6a7f8b119c16f68be9e25f35f514d3d409847198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:21 +0000
Subject: [PATCH 100/144] fix: HTTP examples: exceptions that are not structs

---
 httptrace/export_http_examples.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 2d04143..c3845b5 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -42,7 +42,7 @@ func stringExample(ex interface{}) string {
 type exampleData struct {
 	req map[string]interface{}
 	exc *sadl.HttpExceptionSpec
-	res map[string]interface{}
+	res interface{}
 }
 
 func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
@@ -51,7 +51,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
 	var names []string //in the order of the requests
-	var reqExample, resExample map[string]interface{}
+	var reqExample map[string]interface{}
+	var resExample interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
@@ -67,11 +68,11 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					data.res = ex.Example
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							data.res = ex.Example
 							data.exc = exc
 						}
 					}
@@ -121,8 +122,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 
 
 				if data.exc == nil {
+					outputs := resExample.(map[string]interface{})
 					for _, out := range expected.Outputs {
-						ex, ok := resExample[out.Name]
+						ex, ok := outputs[out.Name]
 						if !ok {
 							continue
 						}
-- 
2.43.0


From 9c9846c47ccb07e8519943b1edfbc330670a3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:40 +0000
Subject: [PATCH 101/144] fix: annotations are printed in a fixed order

---
 misc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc.go b/misc.go
index ff2246d..2ce41c9 100644
--- a/misc.go
+++ b/misc.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"sort"
 	"reflect"
 	"strings"
 )
@@ -181,6 +182,7 @@ func AnnotationsAsString(annos map[string]string) string {
 		for k, v := range annos {
 			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
 		}
+		sort.Strings(opts)
 	}
 	if len(opts) > 0 {
 		return " (" + strings.Join(opts, ", ") + ")"
-- 
2.43.0


From eda9aaa2c1075cc05d862536f8b6882f4dfb1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:14 +0000
Subject: [PATCH 102/144] fix: union variants with different inline constraints
 are not equivalent

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 19ddc59..7e035e0 100644
--- a/model.go
+++ b/model.go
@@ -166,12 +166,12 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Variants) != len(ts2.Variants) {
 			return false
 		}
-		m := make(map[string]bool, 0)
+		m := make(map[string]*UnionVariantDef, 0)
 		for _, v := range ts1.Variants {
-			m[v.Name+" "+v.Type] = true
+			m[v.Name] = v
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Name+" "+v.Type]; !ok {
+			if v1, ok := m[v.Name]; !ok || !model.EquivalentTypes(&v1.TypeSpec, &v.TypeSpec) {
 				return false
 			}
 		}
-- 
2.43.0


From b59b05b5e7cc5e31dfc813473969882fc631ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:25 +0000
Subject: [PATCH 103/144] fix: OpenAPI export puts request and response
 examples at the parameter or body they belong to

---
 openapi/export_openapi.go | 48 +++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 3ee0461..eb2bba0 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -285,7 +285,8 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
 					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" && op.RequestBody != nil {
+						place, k := parameterPlace(model.FindHttp(hdefName).Inputs, k)
+						if place == "body" && op.RequestBody != nil {
 							tmp := op.RequestBody.Content["application/json"]
 							if ed.Name == "" {
 								tmp.Example = v
@@ -299,7 +300,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 							}
 						} else {
 							for _, param := range op.Parameters {
-								if param.Name == k {
+								if param.In == place && param.Name == k {
 									if ed.Name == "" {
 										param.Example = v
 									} else {
@@ -320,11 +321,11 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
 					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							hact := model.FindHttp(hdefName)
-							if hact.Expected == nil {
-								continue
-							}
+						hact := model.FindHttp(hdefName)
+						if hact.Expected == nil {
+							continue
+						}
+						if place, _ := parameterPlace(hact.Expected.Outputs, k); place == "body" {
 							//FIXME: somehow the example name must include the status to use here
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
 							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
@@ -343,21 +344,6 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 								}
 							}
 
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
-								}
-							}
 						}
 					}
 				} else {
@@ -371,6 +357,24 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 	return oas, nil
 }
 
+// parameterPlace tells where an HTTP action carries the named input or output, and under which name.
+func parameterPlace(params []*sadl.HttpParamSpec, name string) (string, string) {
+	for _, param := range params {
+		if param.Name == name {
+			switch {
+			case param.Path:
+				return "path", param.Name
+			case param.Query != "":
+				return "query", param.Query
+			case param.Header != "":
+				return "header", param.Header
+			}
+			return "body", param.Name
+		}
+	}
+	return "", name
+}
+
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
 		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
-- 
2.43.0


From f2de853db31fe3f21f7f04d93acebef8b17c8fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:27 +0000
Subject: [PATCH 104/144] fix: OpenAPI import follows schema references through
 any number of aliases

---
 openapi/import_openapi.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 36c611f..aae27bd 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -157,8 +157,15 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := schemas[tname]; ok {
-				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
+			oasDef, ok := schemas[tname]
+			for n := 0; ok && oasDef.Ref != "" && n < len(schemas); n++ {
+				tname = oasTypeRef(oasDef)
+				oasDef, ok = schemas[tname]
+			}
+			if ok && oasDef.Ref == "" {
+				prev := examples
+				ts, err = convertOasType(tname, oasDef)
+				examples = prev //the referenced definition has them
 			} else {
 				err = fmt.Errorf("Reference to an undefined schema: %q", oasSchema.Ref)
 			}
-- 
2.43.0


From 6dc14a90edc2fdf513e1534b31e00f8e2efaf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:27 +0000
Subject: [PATCH 105/144] fix: Swagger import keeps OPTIONS operations

---
 openapi/import_swagger.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index fd0115a..294d606 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -69,12 +69,13 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:    toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete: toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:    toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:   toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:  toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:   toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
 			//etc
 		}
 		paths[k] = pi
-- 
2.43.0


From 8169fd7dbc90b546073030b8022c6f9928569002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:28 +0000
Subject: [PATCH 106/144] fix: Swagger import keeps the sizes of maps

---
 openapi/import_swagger.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 294d606..92ff95e 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -206,6 +206,13 @@ func toV3Schema(v2Any interface{}) *Schema {
 		for k, v := range v2.GetData("properties").AsMap() {
 			schema.Properties[k] = toV3Schema(v)
 		}
+		if v2.Has("maxProperties") {
+			n := uint64(v2.GetInt64("maxProperties"))
+			schema.MaxProps = &n
+		}
+		if v2.Has("minProperties") {
+			schema.MinProps = uint64(v2.GetInt64("minProperties"))
+		}
 		if m := v2.GetMap("additionalProperties"); m != nil {
 			schema.AdditionalProperties = toV3Schema(m)
 		}
-- 
2.43.0


From 6dc9adcbe85ee6ef898f4e492b3d99c16034e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:28 +0000
Subject: [PATCH 107/144] fix: Swagger import keeps examples

---
 openapi/import_swagger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 92ff95e..c79361e 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -199,6 +199,7 @@ func toV3Schema(v2Any interface{}) *Schema {
 	v2 := sadl.AsData(v2Any)
 	schema.Description = v2.GetString("description")
 	schema.Type = v2.GetString("type")
+	schema.Example = v2.Get("example")
 	schema.Required = v2.GetStringArray("required")
 	switch schema.Type {
 	case "object":
-- 
2.43.0


From 62e62eb7370044d665cecd1dfbf8c8b42025dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:06 +0000
Subject: [PATCH 108/144] fix: GraphQL export reports fields, items and union
 variants it cannot express

---
 graphql/export_graphql.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 5d8d05b..b339ac2 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -107,7 +107,10 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 				w.Emit("  # %s\n", line)
 			}
 		}
-		ftype := w.typeRef(&fd.TypeSpec)
+		ftype, err := w.typeRef(&fd.TypeSpec)
+		if err != nil {
+			return fmt.Errorf("%v: %s.%s", err, td.Name, fd.Name)
+		}
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
 	}
 	w.Emit("}\n\n")
@@ -142,26 +145,31 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	}
 }
 
-func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
+func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) (string, error) {
 	if td, ok := w.arrays[ts.Type]; ok {
 		ts = &td.TypeSpec
 	}
 	tsName := w.scalarType(ts.Type)
 	if tsName != "" {
-		return tsName
+		return tsName, nil
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", w.typeRef(&sadl.TypeSpec{Type: ts.Items}))
+		iname, err := w.typeRef(&sadl.TypeSpec{Type: ts.Items})
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("[%s!]", iname), nil
 	default:
 		td := w.model.FindType(ts.Type)
-		if td != nil {
+		if td != nil && td.Name != td.Type {
 			tsName = w.scalarType(td.Type)
 			if tsName != "" {
-				return tsName
+				return tsName, nil
 			}
+			return ts.Type, nil
 		}
-		return ts.Type
+		return "", fmt.Errorf("GraphQL export of this type is not supported: %s", ts.Type)
 	}
 }
 
@@ -174,6 +182,9 @@ func (w *GraphqlWriter) EmitUnionDef(td *sadl.TypeDef) error {
 			w.Emit("    ")
 		}
 		vtype := uv.Type
+		if vtd := w.model.FindType(vtype); vtd == nil || vtd.Type != "Struct" || vtype == "Struct" {
+			return fmt.Errorf("GraphQL export of this union variant is not supported, it must be a struct: %s.%s (%s)", td.Name, uv.Name, vtype)
+		}
 		w.Emit("%s\n", vtype)
 	}
 	w.Emit("\n")
-- 
2.43.0


From 7407c36a5248a078b6273566e76f03184ad14d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:00 +0000
Subject: [PATCH 109/144] fix: GraphQL import reports a field without a type

---
 graphql/import_graphql.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index fbc6ef2..34c1a0f 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -246,6 +246,8 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			default:
 				fd.Type = convertTypeName(typeName(t))
 			}
+		default:
+			return fmt.Errorf("Field type not supported: %s.%s", td.Name, fd.Name)
 		}
 		td.Fields = append(td.Fields, fd)
 	}
-- 
2.43.0


From c8445de85acc52e7db71f3faf45830b317b8fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:59 +0000
Subject: [PATCH 110/144] fix: generated Go enums reject the empty string

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index c6b5b47..1d7242e 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -251,7 +251,7 @@ func (e {{.Name}}) MarshalText() ([]byte, error) {
 func (e *{{.Name}}) UnmarshalText(b []byte) error {
     s := string(b)
     for v, s2 := range names{{.Name}} {
-        if s == s2 {
+        if v > 0 && s == s2 {
             *e = {{.Name}}(v)
             return nil
         }
-- 
2.43.0


From 979908f43367d653b7f548650ce85ce8c4f3c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:00 +0000
Subject: [PATCH 111/144] fix: Java generator: union variants holding an empty
 value are encoded

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index c1488c2..dda398e 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -521,7 +521,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	var nestedNames []string
 	nested := make(map[string]*sadl.TypeSpec, 0)
 	for _, vd := range td.Variants {
-		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
+		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_NULL)\n")
 
 		if vd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
-- 
2.43.0


From 715b74d95f1fa41b7a932017350c77ed33c9abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:09 +0000
Subject: [PATCH 112/144] fix: Java server: the default of a large integer
 parameter stays in range

---
 java/java_server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/java_server.go b/java/java_server.go
index 11bb479..2e0404e 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"text/template"
@@ -216,7 +217,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					case string:
 						param = "@DefaultValue(" + javaString(b) + ") " + param
 					case float64:
-						param = "@DefaultValue(\"" + strconv.FormatFloat(b, 'f', -1, 64) + "\") " + param
+						prec := -1
+						if b == math.Trunc(b) {
+							prec = 0 //the exact integer
+						}
+						param = "@DefaultValue(\"" + strconv.FormatFloat(b, 'f', prec, 64) + "\") " + param
 					default:
 						if gen.Err == nil {
 							gen.Err = fmt.Errorf("Unsupported default value for parameter %q: %v", in.Name, in.Default)
-- 
2.43.0


From ac89242ec584f78de337b54935b31a74ae46703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:23 +0000
Subject: [PATCH 113/144] fix: a binary exponent is not a Decimal number

---
 decimal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 39db9b2..f3d7417 100644
--- a/decimal.go
+++ b/decimal.go
@@ -4,6 +4,7 @@ package sadl
 import (
 	"fmt"
 	"math/big"
+	"strings"
 )
 
 // we establish this "reasonable" max precision
@@ -31,7 +32,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil || num.IsInf() {
+	if err != nil || num.IsInf() || strings.ContainsAny(text, "pP") { //a binary exponent is not decimal notation
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From 283611684d73cf6f5650cb1f53b7d360763a7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 114/144] fix: a definition that ends at the end of the file is
 parsed

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 1559f89..9078288 100644
--- a/parser.go
+++ b/parser.go
@@ -66,6 +66,7 @@ type Parser struct {
 	lastToken      *scanner.Token
 	prevLastToken  *scanner.Token
 	ungottenToken  *scanner.Token
+	atEOF          bool
 	currentComment string
 	extensions     map[string]Extension
 }
@@ -105,6 +106,9 @@ func (p *Parser) Model() *Model {
 }
 
 func (p *Parser) UngetToken() {
+	if p.atEOF {
+		return //the end of file will be found again, the last token has already been consumed
+	}
 	Debug("UngetToken() -> ", p.lastToken)
 	p.ungottenToken = p.lastToken
 	p.lastToken = p.prevLastToken
@@ -121,6 +125,7 @@ func (p *Parser) GetToken() *scanner.Token {
 	tok := p.scanner.Scan()
 	for {
 		if tok.Type == scanner.EOF {
+			p.atEOF = true
 			return nil //fixme
 		} else if tok.Type != scanner.BLOCK_COMMENT {
 			break
-- 
2.43.0


From b4c972d1efac7525ac5d69aea9404a0afd71f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 115/144] fix: the parser reports an incomplete operation
 instead of crashing

---
 parser.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9078288..f4dfeb9 100644
--- a/parser.go
+++ b/parser.go
@@ -368,7 +368,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 	//parse operation options here
 	options, err := p.ParseOptions("operation", []string{"http"})
-
+	if err != nil {
+		return err
+	}
 	err = p.expect(scanner.OPEN_BRACE)
 	if err != nil {
 		return err
@@ -415,6 +417,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
 	tok := p.GetToken()
+	if tok == nil {
+		return nil, p.EndOfFileError()
+	}
 	if tok.Type != scanner.OPEN_BRACE {
 		return nil, p.SyntaxError()
 	}
@@ -435,16 +440,25 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 			}
 			in.Name = tok.Text
 			tok = p.GetToken()
+			if tok == nil {
+				return nil, p.EndOfFileError()
+			}
 			if tok.Type != scanner.SYMBOL {
 				return nil, p.SyntaxError()
 			}
 			in.Type = tok.Text
 			tok = p.GetToken()
+			if tok == nil {
+				return nil, p.EndOfFileError()
+			}
 			if tok.Type != scanner.OPEN_PAREN {
 				p.UngetToken()
 			} else {
 				for {
 					tok = p.GetToken()
+					if tok == nil {
+						return nil, p.EndOfFileError()
+					}
 					if tok.Type == scanner.CLOSE_PAREN {
 						break
 					} else if tok.Type == scanner.SYMBOL {
@@ -467,6 +481,9 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
 	tok := p.GetToken()
+	if tok == nil {
+		return nil, p.EndOfFileError()
+	}
 	if tok.Type != scanner.OPEN_BRACE {
 		return nil, p.SyntaxError()
 	}
@@ -486,6 +503,9 @@ func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 			}
 			outName := tok.Text
 			tok = p.GetToken()
+			if tok == nil {
+				return nil, p.EndOfFileError()
+			}
 			if tok.Type != scanner.SYMBOL {
 				return nil, p.SyntaxError()
 			}
@@ -504,6 +524,9 @@ func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 func (p *Parser) parseOperationExceptions() ([]string, error) {
 	var exceptions []string
 	tok := p.GetToken()
+	if tok == nil {
+		return nil, p.EndOfFileError()
+	}
 	if tok.Type != scanner.OPEN_BRACE {
 		return nil, p.SyntaxError()
 	}
-- 
2.43.0


From d628ef22feead79ece2b21d2c0d4087ab7bb9d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:56 +0000
Subject: [PATCH 116/144] fix: a file that includes itself is reported

---
 parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index f4dfeb9..112f7fa 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"path/filepath"
 	"strconv"
 	"strings"
 
@@ -67,6 +68,7 @@ type Parser struct {
 	prevLastToken  *scanner.Token
 	ungottenToken  *scanner.Token
 	atEOF          bool
+	including      []string //the files being parsed, each included by the one before it
 	currentComment string
 	extensions     map[string]Extension
 }
@@ -78,7 +80,16 @@ type Extension interface {
 	Validate(p *Parser) error
 }
 
-func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Parser, error) {
+func parseFileNoValidate(path string, conf *Data, extensions []Extension, including ...string) (*Parser, error) {
+	abs, err := filepath.Abs(path)
+	if err != nil {
+		return nil, err
+	}
+	for _, f := range including {
+		if f == abs {
+			return nil, fmt.Errorf("File includes itself: %s", path)
+		}
+	}
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
@@ -90,6 +101,7 @@ func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Pars
 		source:  src,
 		conf:    conf,
 	}
+	p.including = append(append(p.including, including...), abs)
 	err = p.ParseNoValidate(extensions)
 	if err != nil {
 		return nil, err
@@ -333,7 +345,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 	fname, err := p.ExpectString()
 	if err == nil {
 		var incparser *Parser
-		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList())
+		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList(), p.including...)
 		if err == nil {
 			inc := incparser.model
 			tmpModel, err := NewModel(p.schema)
-- 
2.43.0


From 1dc9a9fd788652f3416641ae1316ef791a6fb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:49 +0000
Subject: [PATCH 117/144] fix: HTTP parameters are required when they say so,
 and body and path parameters always

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 112f7fa..5cc0db7 100644
--- a/parser.go
+++ b/parser.go
@@ -659,7 +659,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header != "" { //body or pathparam
+		if in.Query == "" && in.Header == "" { //body or pathparam
 			in.Required = true
 		}
 	}
@@ -735,6 +735,7 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 	spec := &HttpParamSpec{
 		StructFieldDef: StructFieldDef{
 			Name:        ename,
+			Required:    options.Required,
 			Annotations: options.Annotations,
 			Comment:     comment,
 			TypeSpec:    *ts,
-- 
2.43.0


From 0581da34888b308592ed2a48b33f9054755afffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 118/144] fix: union types keep their annotations, and variants
 their type, comment and annotations

---
 parser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 5cc0db7..a31579a 100644
--- a/parser.go
+++ b/parser.go
@@ -981,6 +981,9 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		td.Annotations = options.Annotations
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
+		if options.Annotations != nil {
+			td.Annotations = options.Annotations
+		}
 	default:
 		err = p.Error(fmt.Sprintf("Super type must be a base type: %v", superName))
 	}
@@ -1256,9 +1259,12 @@ func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFie
 			}
 		} else if fields != nil {
 			for _, v := range fields {
-				vd := &UnionVariantDef{}
-				vd.Name = v.Name
-				vd.Type = v.Type
+				vd := &UnionVariantDef{
+					Name:        v.Name,
+					Comment:     v.Comment,
+					Annotations: v.Annotations,
+					TypeSpec:    v.TypeSpec,
+				}
 				td.Variants = append(td.Variants, vd)
 			}
 		} else {
-- 
2.43.0


From 4cd3849f4f320c391581849bc637afc493e80d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 119/144] fix: the comment of a field has every leading line,
 once

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index a31579a..78025bf 100644
--- a/parser.go
+++ b/parser.go
@@ -1770,7 +1770,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		if tok.Type == scanner.CLOSE_BRACE {
 			return nil, nil
 		} else if tok.Type == scanner.LINE_COMMENT {
-			comment = p.MergeComment("", tok.Text)
+			comment = p.MergeComment(comment, tok.Text)
 			tok = p.GetToken()
 			if tok == nil {
 				return nil, p.EndOfFileError()
@@ -1789,11 +1789,10 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	ts, foptions, fcomment, err := p.ParseTypeSpec(comment)
+	ts, foptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return nil, err
 	}
-	comment = p.MergeComment(comment, fcomment)
 	field := &StructFieldDef{
 		Name:     fname,
 		Comment:  comment,
-- 
2.43.0


From d157d62fec4e0067511aacebc57a818e2460a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 120/144] fix: text that does not belong to a field or HTTP
 element is an error, and elements may share a line

---
 parser.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 78025bf..b3d046c 100644
--- a/parser.go
+++ b/parser.go
@@ -638,6 +638,9 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 			}
 		}
 		op.Comment, err = p.EndOfStatement(op.Comment)
+		if err != nil {
+			return err
+		}
 		ensureActionName(op)
 		ensureRequiredParams(op)
 		p.schema.Http = append(p.schema.Http, op)
@@ -731,7 +734,10 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 	if err != nil {
 		return err
 	}
-	comment, err = p.EndOfStatement(comment)
+	comment, err = p.endOfElement(comment)
+	if err != nil {
+		return err
+	}
 	spec := &HttpParamSpec{
 		StructFieldDef: StructFieldDef{
 			Name:        ename,
@@ -810,7 +816,7 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	} else {
 		p.UngetToken()
 	}
-	op.Expected.Comment, err = p.EndOfStatement(op.Expected.Comment)
+	op.Expected.Comment, err = p.endOfElement(op.Expected.Comment)
 	return err
 }
 
@@ -852,7 +858,7 @@ func (p *Parser) parseHttpExceptionSpec(op *HttpDef, comment string) error {
 		Status:      estatus,
 		Annotations: options.Annotations,
 	}
-	exc.Comment, err = p.EndOfStatement(comment)
+	exc.Comment, err = p.endOfElement(comment)
 	if err != nil {
 		return err
 	}
@@ -1812,8 +1818,8 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 			}
 		}
 	}
-	field.Comment, err = p.EndOfStatement(field.Comment)
-	return field, nil
+	field.Comment, err = p.endOfElement(field.Comment)
+	return field, err
 }
 
 func (p *Parser) parseStructFieldOptions(field *StructFieldDef) error {
@@ -2066,6 +2072,34 @@ func (p *Parser) EndOfStatement(comment string) (string, error) {
 	}
 }
 
+// the end of an element of a block: a separator, the end of the line, or the closing brace of the block (which is left)
+func (p *Parser) endOfElement(comment string) (string, error) {
+	separated := false
+	for {
+		tok := p.GetToken()
+		if tok == nil {
+			return comment, p.EndOfFileError()
+		}
+		switch tok.Type {
+		case scanner.SEMICOLON, scanner.COMMA:
+			separated = true
+		case scanner.LINE_COMMENT:
+			comment = p.MergeComment(comment, tok.Text)
+		case scanner.NEWLINE:
+			return comment, nil
+		case scanner.CLOSE_BRACE:
+			p.UngetToken()
+			return comment, nil
+		default:
+			if !separated {
+				return comment, p.SyntaxError()
+			}
+			p.UngetToken()
+			return comment, nil
+		}
+	}
+}
+
 func (p *Parser) parseLeadingComment(comment string) string {
 	for {
 		tok := p.GetToken()
-- 
2.43.0


From 4a0e67a06db9d81e037a1ec16d0cf25ca3c32bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 121/144] fix: a comment after the separator of an enum element
 belongs to the element before it

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b3d046c..0664ec7 100644
--- a/parser.go
+++ b/parser.go
@@ -1746,7 +1746,11 @@ func (p *Parser) parseEnumElementDef() (*EnumElementDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	comment = p.ParseTrailingComment(comment)
+	tok := p.GetToken()
+	if tok != nil && tok.Type != scanner.SEMICOLON && tok.Type != scanner.COMMA {
+		p.UngetToken()
+	}
+	comment = p.ParseTrailingComment(comment) //also after a separator, on the same line
 	return &EnumElementDef{
 		Symbol:      sym,
 		Comment:     comment,
-- 
2.43.0


From 44bdfa985cc7a41b9a0b3f127c13043472ce2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 122/144] fix: the comment before an 'expect' without a block
 is kept

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 0664ec7..a9a908e 100644
--- a/parser.go
+++ b/parser.go
@@ -789,6 +789,7 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	if tok == nil {
 		return p.EndOfFileError()
 	}
+	op.Expected.Comment = comment
 	if tok.Type == scanner.OPEN_BRACE {
 		op.Expected.Comment = p.ParseTrailingComment(comment)
 		comment = ""
-- 
2.43.0


From a699c0e00ff168f7b78dd126146697b25e015934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 123/144] fix: examples keep their annotations and trailing
 comment

---
 parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index a9a908e..f1bb137 100644
--- a/parser.go
+++ b/parser.go
@@ -930,13 +930,15 @@ func (p *Parser) parseExampleDirective(comment string) error {
 	val, err := p.parseLiteralValue()
 	if err == nil {
 		ex := &ExampleDef{
-			Target:  target,
-			Example: val,
-			Comment: comment,
+			Target:      target,
+			Example:     val,
+			Comment:     comment,
+			Annotations: options.Annotations,
 		}
 		if options.Name != "" {
 			ex.Name = options.Name
 		}
+		ex.Comment, err = p.EndOfStatement(ex.Comment)
 		p.schema.Examples = append(p.schema.Examples, ex)
 	}
 	return err
-- 
2.43.0


From 166e53503ad2a32af4b91f53a40fbbcbcd51d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 124/144] fix: examples of an included file are kept

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index f1bb137..e30f7a3 100644
--- a/parser.go
+++ b/parser.go
@@ -367,6 +367,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 				op.Annotations = p.addAnnotation(op.Annotations, "x_include", fname)
 				p.schema.Operations = append(p.schema.Operations, op)
 			}
+			p.schema.Examples = append(p.schema.Examples, inc.Examples...)
 		}
 	}
 	return err
-- 
2.43.0


From 787a113e38edeb5700991396875d9dad081a9c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 125/144] fix: List without an item type is an Array, as with
 one

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index e30f7a3..8f728ee 100644
--- a/parser.go
+++ b/parser.go
@@ -1046,6 +1046,9 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 	if err != nil {
 		return "", nil, nil, nil, options, "", err
 	}
+	if typeName == "List" {
+		typeName = "Array"
+	}
 	tok := p.GetToken()
 	if tok == nil {
 		return typeName, nil, nil, nil, options, "", nil
-- 
2.43.0


From 55f79f1016ce8954950e78e5c860dfa945b03674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 126/144] fix: an empty array literal is an array, not null

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8f728ee..4308992 100644
--- a/parser.go
+++ b/parser.go
@@ -1926,7 +1926,7 @@ func (p *Parser) parseLiteralNumber(tok *scanner.Token) (interface{}, error) {
 }
 
 func (p *Parser) parseLiteralArray() (interface{}, error) {
-	var ary []interface{}
+	ary := make([]interface{}, 0)
 	for {
 		tok := p.GetToken()
 		if tok == nil {
-- 
2.43.0


From 053ead21ebba1c374ff059ac7952f7f41071b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 127/144] fix: an unknown directive is an error

---
 parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 4308992..72d383c 100644
--- a/parser.go
+++ b/parser.go
@@ -223,12 +223,12 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 					p.schema.Annotations, comment, err = p.parseExtendedOptionTopLevel(p.schema.Annotations, tok.Text)
 					p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 				} else {
-					if p.extensions != nil {
-						if handler, ok := p.extensions[tok.Text]; ok {
-							p.currentComment = comment
-							err = handler.Parse(p)
-						}
+					handler, ok := p.extensions[tok.Text]
+					if !ok {
+						return p.expectedDirectiveError()
 					}
+					p.currentComment = comment
+					err = handler.Parse(p)
 				}
 			}
 			comment = ""
-- 
2.43.0


From a081955bd08d55cb902fe98ec9726aacd129db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 128/144] fix: the default resource name is taken from the
 path, not from the query

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 72d383c..8311b8c 100644
--- a/parser.go
+++ b/parser.go
@@ -681,7 +681,11 @@ func ensureRequiredParams(hact *HttpDef) {
 }
 
 func resourceName(hact *HttpDef) string {
-	parts := strings.Split(hact.Path, "/")
+	path := hact.Path
+	if n := strings.Index(path, "?"); n >= 0 {
+		path = path[:n]
+	}
+	parts := strings.Split(path, "/")
 	for i := len(parts) - 1; i >= 0; i-- {
 		if strings.Index(parts[i], "{") < 0 {
 			return parts[i]
-- 
2.43.0


From 9ed01bc367bed5492ee2fdc154baa7f65b0a0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:24 +0000
Subject: [PATCH 129/144] fix: a comment after a directive describes it, and
 not what comes next

---
 parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 8311b8c..dda538b 100644
--- a/parser.go
+++ b/parser.go
@@ -285,6 +285,7 @@ func (p *Parser) parseNamespaceDirective(comment string) error {
 		ns = ns + txt
 	}
 	p.schema.Namespace = ns
+	p.schema.Comment, err = p.EndOfStatement(p.schema.Comment)
 	return err
 }
 
@@ -293,6 +294,7 @@ func (p *Parser) parseNameDirective(comment string) error {
 	txt, err := p.expectText()
 	if err == nil {
 		p.schema.Name = txt
+		p.schema.Comment, err = p.EndOfStatement(p.schema.Comment)
 	}
 	return err
 }
@@ -306,7 +308,9 @@ func (p *Parser) parseVersionDirective(comment string) error {
 	switch tok.Type {
 	case scanner.NUMBER, scanner.SYMBOL, scanner.STRING:
 		p.schema.Version = tok.Text
-		return nil
+		var err error
+		p.schema.Comment, err = p.EndOfStatement(p.schema.Comment)
+		return err
 	default:
 		return p.Error("Bad version value: " + tok.Text)
 	}
@@ -318,8 +322,9 @@ func (p *Parser) parseBaseDirective(comment string) error {
 	if err == nil {
 		p.schema.Base = base
 		if base != "" && !strings.HasPrefix(base, "/") {
-			err = p.Error("Bad base path value: " + base)
+			return p.Error("Bad base path value: " + base)
 		}
+		p.schema.Comment, err = p.EndOfStatement(p.schema.Comment)
 	}
 	return err
 }
@@ -368,6 +373,8 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 				p.schema.Operations = append(p.schema.Operations, op)
 			}
 			p.schema.Examples = append(p.schema.Examples, inc.Examples...)
+			p.schema.Comment, err = p.EndOfStatement(p.schema.Comment)
+			return err
 		}
 	}
 	return err
-- 
2.43.0


From 686c3661cb22002420877c33de6f427b4bfcafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 130/144] fix: an empty comment line adds nothing to a comment

---
 parser.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index dda538b..6ce53de 100644
--- a/parser.go
+++ b/parser.go
@@ -2150,13 +2150,7 @@ func (p *Parser) ParseTrailingComment(comment string) string {
 }
 
 func (p *Parser) MergeComment(comment1 string, comment2 string) string {
-	if comment1 == "" {
-		return strings.TrimSpace(comment2)
-	}
-	if comment2 == "" {
-		return strings.TrimSpace(comment1)
-	}
-	return strings.TrimSpace(comment1) + " " + strings.TrimSpace(comment2)
+	return strings.TrimSpace(strings.TrimSpace(comment1) + " " + strings.TrimSpace(comment2))
 }
 
 func (p *Parser) Validate() (*Model, error) {
-- 
2.43.0


From 48a1291224e2a0620d49f50ca439bd5b5ccee41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 131/144] fix: inputs and outputs of operations keep their
 comments, and what is not one is an error

---
 parser.go | 153 ++++++++++++++++++++++--------------------------------
 1 file changed, 61 insertions(+), 92 deletions(-)

diff --git a/parser.go b/parser.go
index 6ce53de..bb18273 100644
--- a/parser.go
+++ b/parser.go
@@ -421,7 +421,10 @@ func (p *Parser) parseOperationDirective(comment string) error {
 			}
 		}
 	}
-	//comment, err = p.EndOfStatement(comment)
+	comment, err = p.EndOfStatement(comment)
+	if err != nil {
+		return err
+	}
 	op := &OperationDef{
 		Name:        name,
 		Inputs:      inputs,
@@ -436,109 +439,75 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
-	tok := p.GetToken()
-	if tok == nil {
-		return nil, p.EndOfFileError()
-	}
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	for {
+		done, comment, err := p.IsBlockDone("")
+		if err != nil {
+			return nil, err
+		}
+		if done {
 			return inputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			in := &OperationInput{}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Name = tok.Text
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Type = tok.Text
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			if tok.Type != scanner.OPEN_PAREN {
-				p.UngetToken()
-			} else {
-				for {
-					tok = p.GetToken()
-					if tok == nil {
-						return nil, p.EndOfFileError()
-					}
-					if tok.Type == scanner.CLOSE_PAREN {
-						break
-					} else if tok.Type == scanner.SYMBOL {
-						switch tok.Text {
-						case "required":
-							in.Required = true
-						default:
-							return nil, p.SyntaxError()
-						}
-					}
-				}
-			}
-			inputs = append(inputs, in)
 		}
-		tok = p.GetToken()
+		in := &OperationInput{}
+		in.Name, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		in.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		options, err := p.ParseOptions("input", []string{"required"})
+		if err != nil {
+			return nil, err
+		}
+		in.Required = options.Required
+		in.Annotations = options.Annotations
+		in.Comment, err = p.endOfElement(comment)
+		if err != nil {
+			return nil, err
+		}
+		inputs = append(inputs, in)
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
-	tok := p.GetToken()
-	if tok == nil {
-		return nil, p.EndOfFileError()
-	}
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
+	err := p.expect(scanner.OPEN_BRACE)
+	if err != nil {
+		return nil, err
 	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	for {
+		done, comment, err := p.IsBlockDone("")
+		if err != nil {
+			return nil, err
+		}
+		if done {
 			return outputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outName := tok.Text
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outType := tok.Text
-			//options? comment?
-			out := &OperationOutput{}
-			out.Name = outName
-			out.Type = outType
-			outputs = append(outputs, out)
 		}
-		tok = p.GetToken()
+		out := &OperationOutput{}
+		out.Name, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		out.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		options, err := p.ParseOptions("output", []string{})
+		if err != nil {
+			return nil, err
+		}
+		out.Annotations = options.Annotations
+		out.Comment, err = p.endOfElement(comment)
+		if err != nil {
+			return nil, err
+		}
+		outputs = append(outputs, out)
 	}
-	return nil, nil
 }
 
 func (p *Parser) parseOperationExceptions() ([]string, error) {
-- 
2.43.0


From 52d8323d50bcffdb04c88f9a7a279f4edddf5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:05 +0000
Subject: [PATCH 132/144] fix: an inline struct may be followed by a separator,
 and a struct or enum by nothing else

---
 parser.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index bb18273..718be81 100644
--- a/parser.go
+++ b/parser.go
@@ -967,7 +967,7 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		err = p.parseStructDef(td, fields)
 		td.Annotations = options.Annotations
 	case "Enum":
-		td.Elements = elements
+		err = p.parseEnumDef(td, elements)
 		td.Annotations = options.Annotations
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
@@ -1099,8 +1099,6 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					fields = append(fields, field)
 				}
-				comment, err = p.EndOfStatement(comment)
-				p.UngetToken() //the closing brace
 				return typeName, nil, fields, nil, options, comment, nil
 			case "Enum":
 				var elements []*EnumElementDef
@@ -1121,8 +1119,6 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 					}
 					elements = append(elements, element)
 				}
-				comment, err = p.EndOfStatement(comment)
-				p.UngetToken() //the closing brace
 				return typeName, nil, nil, elements, options, comment, nil
 			}
 			return typeName, nil, nil, nil, options, comment, p.SyntaxError()
@@ -1231,13 +1227,16 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
 		td.Fields = fields
+		td.Comment, err = p.EndOfStatement(td.Comment)
 	}
 	return err
 }
 
 func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
+	var err error
 	td.Elements = elements
-	return nil
+	td.Comment, err = p.EndOfStatement(td.Comment)
+	return err
 }
 
 func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFieldDef) error {
-- 
2.43.0


From dc46102705b174681fd691ea3208935461f6bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 133/144] fix: undefined types are reported wherever a type
 definition refers to them

---
 parser.go | 152 ++++++++++++++++++------------------------------------
 1 file changed, 51 insertions(+), 101 deletions(-)

diff --git a/parser.go b/parser.go
index 718be81..9ce72b3 100644
--- a/parser.go
+++ b/parser.go
@@ -2124,20 +2124,7 @@ func (p *Parser) MergeComment(comment1 string, comment2 string) string {
 func (p *Parser) Validate() (*Model, error) {
 	var err error
 	for _, td := range p.model.Types {
-		switch td.Type {
-		case "Struct":
-			err = p.validateStruct(td)
-		case "Array":
-			err = p.validateArray(td)
-		case "Map":
-			err = p.validateMap(td)
-		case "UnitValue":
-			err = p.validateUnitValue(td)
-		case "String":
-			err = p.validateStringDef(td)
-		case "UUID":
-			err = p.validateReference(td)
-		}
+		err = p.validateTypeSpec(td.Name, &td.TypeSpec)
 		if err != nil {
 			return nil, err
 		}
@@ -2411,116 +2398,79 @@ func (p *Parser) validateOperation(action *OperationDef) error {
 	return nil
 }
 
-func (p *Parser) validateStringDef(td *TypeDef) error {
-	if td.Pattern != "" {
-		if td.Values != nil {
-			return fmt.Errorf("Both 'pattern' and 'values' options cannot coexist in String type %s", td.Name)
-		}
-	}
-	return p.validateReference(td)
-}
-
-func (p *Parser) validateReference(td *TypeDef) error {
-	if td.Reference != "" {
-		t := p.model.FindType(td.Reference)
-		if t == nil {
-			return fmt.Errorf("Undefined type '%s' for %s reference", td.Reference, td.Name)
-		}
-	}
-	return nil
-}
-
-func (p *Parser) validateUnitValue(td *TypeDef) error {
-	vt := p.model.FindType(td.Value)
+func (p *Parser) validateUnitValue(name string, ts *TypeSpec) error {
+	vt := p.model.FindType(ts.Value)
 	if vt == nil {
-		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", td.Value, td.Name)
+		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", ts.Value, name)
 	}
 	if !p.model.IsNumericType(&vt.TypeSpec) {
-		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", name, vt.Name)
 	}
-	ut := p.model.FindType(td.Unit)
+	ut := p.model.FindType(ts.Unit)
 	if ut == nil {
-		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", td.Unit, td.Name)
+		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", ts.Unit, name)
 	}
 	if ut.Type != "String" && ut.Type != "Enum" {
-		return fmt.Errorf("UnitValue value type of %s is not String or Enum: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue unit type of %s is not String or Enum: %s", name, ut.Name)
 	}
 	return nil
 }
 
-func (p *Parser) validateStruct(td *TypeDef) error {
-	model := p.model
-	for _, field := range td.Fields {
-		ftd := model.FindType(field.Type)
-		if ftd == nil {
-			return fmt.Errorf("Undefined type '%s' in struct field '%s.%s'", field.Type, td.Name, field.Name)
+// validateTypeSpec checks that every type the definition refers to is defined, and its options make sense together.
+func (p *Parser) validateTypeSpec(name string, ts *TypeSpec) error {
+	if p.model.FindType(ts.Type) == nil {
+		return fmt.Errorf("Undefined type '%s' for %s", ts.Type, name)
+	}
+	switch ts.Type {
+	case "Array":
+		if p.model.FindType(ts.Items) == nil {
+			return fmt.Errorf("Undefined type '%s' for Array items of %s", ts.Items, name)
 		}
-		switch field.Type {
-		case "Array":
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined array item type '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
-		case "Map":
-			if field.Keys != "" && field.Keys != "Any" {
-				fitd := model.FindType(field.Keys)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map key type '%s' in struct field '%s.%s'", field.Keys, td.Name, field.Name)
-				}
-				//TODO: ensure the key type is stringable.
-			}
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map value '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
+	case "Map":
+		//TODO: ensure the key type is stringable.
+		if p.model.FindType(ts.Keys) == nil {
+			return fmt.Errorf("Undefined type '%s' for Map keys of %s", ts.Keys, name)
 		}
-		if field.Default != nil {
-			if field.Required {
-				return fmt.Errorf("Cannot have a default value for required field: '%s.%s'", td.Name, field.Name)
-			}
-			err := model.ValidateAgainstTypeSpec(field.Type, &field.TypeSpec, field.Default)
+		if p.model.FindType(ts.Items) == nil {
+			return fmt.Errorf("Undefined type '%s' for Map items of %s", ts.Items, name)
+		}
+	case "UnitValue":
+		return p.validateUnitValue(name, ts)
+	case "String", "UUID":
+		if ts.Pattern != "" && ts.Values != nil {
+			return fmt.Errorf("Both 'pattern' and 'values' options cannot coexist in String type %s", name)
+		}
+		if ts.Reference != "" && p.model.FindType(ts.Reference) == nil {
+			return fmt.Errorf("Undefined type '%s' for %s reference", ts.Reference, name)
+		}
+	case "Struct":
+		for _, field := range ts.Fields {
+			err := p.validateField(name+"."+field.Name, field)
 			if err != nil {
 				return err
 			}
 		}
-		if field.Values != nil && field.Pattern != "" {
-			return fmt.Errorf("Cannot have both 'values' and 'pattern' constraints in one string field: '%s.%s'", td.Name, field.Name)
+	case "Union":
+		for _, v := range ts.Variants {
+			err := p.validateTypeSpec(name+"."+v.Name, &v.TypeSpec)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (p *Parser) validateArray(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Array items '%s'", td.Items, td.Name)
-	}
-	return nil
-}
-
-func (p *Parser) validateMap(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map items '%s'", td.Items, td.Name)
-	}
-	if td.Keys == "String" {
-		return nil
+func (p *Parser) validateField(name string, field *StructFieldDef) error {
+	err := p.validateTypeSpec(name, &field.TypeSpec)
+	if err != nil {
+		return err
 	}
-	ktd := model.FindType(td.Keys)
-	if ktd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map keys '%s'", td.Keys, td.Name)
+	if field.Default != nil {
+		if field.Required {
+			return fmt.Errorf("Cannot have a default value for required field: '%s'", name)
+		}
+		return p.model.ValidateAgainstTypeSpec(name, &field.TypeSpec, field.Default)
 	}
 	return nil
 }
-- 
2.43.0


From 6dcb7298e8889463626ef2c31bf9b2ea7507e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 134/144] fix: undefined types and bad defaults of operations
 and HTTP actions are reported

---
 parser.go | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/parser.go b/parser.go
index 9ce72b3..3888a22 100644
--- a/parser.go
+++ b/parser.go
@@ -2322,9 +2322,12 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 	needsBody := hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH"
 	bodyParam := ""
 	for _, in := range hact.Inputs {
-		t := p.model.FindType(in.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' input type '%s' is not defined", hact.Name, in.Type)
+		err := p.validateTypeSpec("input "+hact.Name+"."+in.Name, &in.TypeSpec)
+		if err == nil && in.Default != nil {
+			err = p.model.ValidateAgainstTypeSpec("default of "+hact.Name+"."+in.Name, &in.TypeSpec, in.Default)
+		}
+		if err != nil {
+			return err
 		}
 		//paramType, paramName := p.parameterSource(hact.Path, in.Name)
 		if !in.Path && in.Query == "" && in.Header == "" {
@@ -2338,16 +2341,24 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	needsBody = false
+	for _, exc := range hact.Exceptions {
+		t := p.model.FindType(exc.Type)
+		if t == nil {
+			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
+		}
+	}
 	if hact.Expected == nil {
 		return nil
 	}
 	needsBody = hact.Expected.Status != 204 && hact.Expected.Status != 304
 	bodyParam = ""
 	for _, out := range hact.Expected.Outputs {
-		t := p.model.FindType(out.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' expected type '%s' is not defined", hact.Name, out.Type)
+		err := p.validateTypeSpec("output "+hact.Name+"."+out.Name, &out.TypeSpec)
+		if err == nil && out.Default != nil {
+			err = p.model.ValidateAgainstTypeSpec("default of "+hact.Name+"."+out.Name, &out.TypeSpec, out.Default)
+		}
+		if err != nil {
+			return err
 		}
 		if out.Header == "" {
 			if needsBody {
@@ -2360,12 +2371,6 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	for _, exc := range hact.Exceptions {
-		t := p.model.FindType(exc.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
-		}
-	}
 	return nil
 }
 
@@ -2394,7 +2399,23 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 */
 
 func (p *Parser) validateOperation(action *OperationDef) error {
-	//fix me
+	for _, in := range action.Inputs {
+		err := p.validateTypeSpec("input "+action.Name+"."+in.Name, &in.TypeSpec)
+		if err != nil {
+			return err
+		}
+	}
+	for _, out := range action.Outputs {
+		err := p.validateTypeSpec("output "+action.Name+"."+out.Name, &out.TypeSpec)
+		if err != nil {
+			return err
+		}
+	}
+	for _, etype := range action.Exceptions {
+		if p.model.FindType(etype) == nil {
+			return fmt.Errorf("Operation '%s' exception type '%s' is not defined", action.Name, etype)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 0e496eb756cebd7766dee731cf88e0dde18fd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 135/144] fix: examples of HTTP requests and responses are
 checked against the type of every parameter, and may be given for actions
 without an expected result

---
 parser.go | 74 +++++++++++++++++++------------------------------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/parser.go b/parser.go
index 3888a22..de9691c 100644
--- a/parser.go
+++ b/parser.go
@@ -2222,64 +2222,40 @@ func (p *Parser) validateExample(ex *ExampleDef) error {
 }
 
 func (p *Parser) validateExampleAgainstHttpRequest(hact *HttpDef, ex *ExampleDef) error {
-	present := make(map[string]bool, 0)
-	m, ok := ex.Example.(map[string]interface{})
-	if !ok {
-		return fmt.Errorf("Example for an HTTP request must be a JSON object")
-	}
-	for k, v := range m {
-		for _, in := range hact.Inputs {
-			if in.Name == k {
-				td := p.model.FindType(in.Type)
-				if td == nil {
-					return fmt.Errorf("Type not found in example: %s", in.Type)
-				}
-				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &td.TypeSpec, v)
-				if err != nil {
-					return err
-				}
-				present[k] = true
-			}
-		}
-	}
-	for _, in := range hact.Inputs {
-		if in.Required {
-			if _, ok := present[in.Name]; !ok {
-				return fmt.Errorf("Required input '%s' missing in example for %s", in.Name, ex.Target)
-			}
-		}
-	}
-	return nil
+	return p.validateExampleAgainstParams("input", hact.Inputs, ex)
 }
 
 func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDef) error {
-	present := make(map[string]bool, 0)
+	var outputs []*HttpParamSpec
+	if hact.Expected != nil {
+		outputs = hact.Expected.Outputs
+	}
+	return p.validateExampleAgainstParams("output", outputs, ex)
+}
+
+func (p *Parser) validateExampleAgainstParams(what string, params []*HttpParamSpec, ex *ExampleDef) error {
 	m, ok := ex.Example.(map[string]interface{})
 	if !ok {
-		return fmt.Errorf("Example for an HTTP response must be a JSON object")
-	}
-	for k, v := range m {
-		for _, out := range hact.Expected.Outputs {
-			if out.Name == k {
-				td := p.model.FindType(out.Type)
-				if td == nil {
-					return fmt.Errorf("Type not found in HTTP response example: %s", out.Type)
-				}
-				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &td.TypeSpec, v)
-				if err != nil {
-					return err
-				}
-				present[k] = true
+		return fmt.Errorf("Example for %s must be a JSON object", ex.Target)
+	}
+	found := 0
+	for _, param := range params {
+		v, ok := m[param.Name]
+		if !ok {
+			if param.Required {
+				return fmt.Errorf("Required %s '%s' missing in example for %s", what, param.Name, ex.Target)
 			}
+			continue
 		}
-	}
-	for _, out := range hact.Expected.Outputs {
-		if out.Required {
-			if _, ok := present[out.Name]; !ok {
-				return fmt.Errorf("Required output '%s' missing in example for %s", out.Name, ex.Target)
-			}
+		found++
+		err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+param.Name, &param.TypeSpec, v)
+		if err != nil {
+			return err
 		}
 	}
+	if found != len(m) {
+		return fmt.Errorf("Example for %s has a value for something that is not an %s of it", ex.Target, what)
+	}
 	return nil
 }
 
-- 
2.43.0


From d5c27642798afe3618b67d77df6e99911ae12483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 136/144] fix: unparser: annotations are printed in a fixed
 order

---
 unparser.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/unparser.go b/unparser.go
index a243ffd..f894f2c 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 )
@@ -45,11 +46,11 @@ func (g *SadlGenerator) Generate() string {
 			s := ""
 			if len(annos) > 0 {
 				s = "\n"
-				for k, v := range annos {
-					if v == "" {
+				for _, k := range sortedKeys(annos) {
+					if annos[k] == "" {
 						s += fmt.Sprintf("%s\n", k)
 					} else {
-						s += fmt.Sprintf("%s %q\n", k, v)
+						s += fmt.Sprintf("%s %q\n", k, annos[k])
 					}
 				}
 			}
@@ -179,9 +180,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + indent + "}"
@@ -201,9 +200,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					}
 				}
 				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + "}"
@@ -228,11 +225,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 	var opts []string
-	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts = append(opts, annotationOptions(op.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
@@ -300,11 +293,7 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			opts = append(opts, "operation="+hact.Name)
 		}
 	}
-	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts = append(opts, annotationOptions(hact.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
@@ -376,6 +365,23 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	return bcom + ps.Name + " " + ts + opt + com + "\n"
 }
 
+func sortedKeys(annos map[string]string) []string {
+	var keys []string
+	for k := range annos {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
+func annotationOptions(annos map[string]string) []string {
+	var opts []string
+	for _, k := range sortedKeys(annos) {
+		opts = append(opts, fmt.Sprintf("%s=%q", k, annos[k]))
+	}
+	return opts
+}
+
 func stringList(lst []string) string {
 	delim := ""
 	end := ""
-- 
2.43.0


From b252237b0a7a0b7d22b6318422539c87011aa96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 137/144] fix: unparser: options of types with a body, and
 annotations of type definitions, are printed

---
 unparser.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/unparser.go b/unparser.go
index f894f2c..ac2c9be 100644
--- a/unparser.go
+++ b/unparser.go
@@ -57,7 +57,7 @@ func (g *SadlGenerator) Generate() string {
 			return s
 		},
 		"typedef": func(td *TypeDef) string {
-			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, ""))
+			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, annotationOptions(td.Annotations), ""))
 		},
 		"operation": func(op *OperationDef) string {
 			return g.sadlOperationSpec(op)
@@ -90,8 +90,8 @@ func (g *SadlGenerator) CreateSadlSource() {
 func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string) string {
 	switch ts.Type {
 	case "Enum":
-		//Q: what if this is a required field, defined inline in a struct?!
-		s := "Enum {\n"
+		head, tail := g.bodyOptions(opts, indent)
+		s := "Enum" + head + " {\n"
 		for _, el := range ts.Elements {
 			com := ""
 			if el.Comment != "" {
@@ -100,7 +100,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			annos := AnnotationsAsString(el.Annotations)
 			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
 		}
-		return s + indent + "}"
+		return s + indent + "}" + tail
 	case "String":
 		if ts.Pattern != "" {
 			opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
@@ -156,9 +156,9 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		}
 		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sopts)
 	case "Struct":
-		sopt := ""
+		head, tail := g.bodyOptions(opts, indent)
 		if len(ts.Fields) > 0 {
-			s := fmt.Sprintf("Struct%s {\n", sopt)
+			s := fmt.Sprintf("Struct%s {\n", head)
 			blockLine := ""
 			for _, fd := range ts.Fields {
 				if len(fd.Comment) > 60 {
@@ -183,27 +183,28 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
-			return s + indent + "}"
+			return s + indent + "}" + tail
 		}
-		return fmt.Sprintf("Struct\n")
+		return fmt.Sprintf("Struct%s {\n%s}%s", head, indent, tail)
 	case "Union":
 		if true {
-			s := fmt.Sprintf("Union {\n")
+			head, tail := g.bodyOptions(opts, indent)
+			s := fmt.Sprintf("Union%s {\n", head)
 			for _, fd := range ts.Variants {
 				com := ""
 				bcom := ""
 				if fd.Comment != "" {
 					if len(fd.Comment) > 100 {
-						bcom = g.FormatComment(indentAmount, fd.Comment, 100, false)
+						bcom = g.FormatComment(indent+indentAmount, fd.Comment, 100, false)
 					} else {
 						com = " // " + fd.Comment
 					}
 				}
 				fopts := []string{}
 				fopts = append(fopts, annotationOptions(fd.Annotations)...)
-				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
+				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
-			return s + "}"
+			return s + indent + "}" + tail
 		} else {
 			s := fmt.Sprintf("Union<")
 			for i, v := range ts.Variants {
@@ -365,6 +366,18 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	return bcom + ps.Name + " " + ts + opt + com + "\n"
 }
 
+// bodyOptions - the options of a type with a body: those of a definition precede the body, those of a field follow it.
+func (g *SadlGenerator) bodyOptions(opts []string, indent string) (string, string) {
+	if len(opts) == 0 {
+		return "", ""
+	}
+	s := " (" + strings.Join(opts, ", ") + ")"
+	if indent == "" {
+		return s, ""
+	}
+	return "", s
+}
+
 func sortedKeys(annos map[string]string) []string {
 	var keys []string
 	for k := range annos {
-- 
2.43.0


From ef1938e279068c85ed5de63aeb43bc0bc5a3a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 138/144] fix: unparser: sizes of Bytes, types of a UnitValue
 and references are printed

---
 unparser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/unparser.go b/unparser.go
index ac2c9be..1d3d0e9 100644
--- a/unparser.go
+++ b/unparser.go
@@ -114,6 +114,9 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.Values != nil {
 			opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
 		}
+		if ts.Reference != "" {
+			opts = append(opts, "reference="+ts.Reference)
+		}
 		sopts := ""
 		if len(opts) > 0 {
 			sopts = " (" + strings.Join(opts, ", ") + ")"
@@ -216,11 +219,26 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			return s + ">"
 		}
 	default:
+		if ts.Type == "Bytes" {
+			if ts.MinSize != nil {
+				opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
+			}
+			if ts.MaxSize != nil {
+				opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+			}
+		}
+		params := ""
+		if ts.Type == "UnitValue" && ts.Value != "" && ts.Unit != "" {
+			params = "<" + ts.Value + "," + ts.Unit + ">"
+		}
+		if ts.Reference != "" {
+			opts = append(opts, "reference="+ts.Reference)
+		}
 		sopts := ""
 		if len(opts) > 0 {
 			sopts = " (" + strings.Join(opts, ", ") + ")"
 		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return fmt.Sprintf("%s%s%s", ts.Type, params, sopts)
 	}
 }
 
-- 
2.43.0


From 13dfe2fa867c1a113da2d6d07312dd2c17f3420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 139/144] fix: unparser: defaults are printed, as literals

---
 unparser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unparser.go b/unparser.go
index 1d3d0e9..4e41f27 100644
--- a/unparser.go
+++ b/unparser.go
@@ -183,6 +183,9 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
+				if fd.Default != nil {
+					fopts = append(fopts, "default="+sadlLiteral(fd.Default))
+				}
 				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
@@ -362,7 +365,7 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 		opts = append(opts, "required")
 	}
 	if ps.Default != nil {
-		opts = append(opts, "default="+ToString(ps.Default))
+		opts = append(opts, "default="+sadlLiteral(ps.Default))
 	}
 	if ps.Header != "" {
 		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
@@ -396,6 +399,11 @@ func (g *SadlGenerator) bodyOptions(opts []string, indent string) (string, strin
 	return "", s
 }
 
+// sadlLiteral - a value as a SADL literal
+func sadlLiteral(value interface{}) string {
+	return strings.TrimSpace(Pretty(value))
+}
+
 func sortedKeys(annos map[string]string) []string {
 	var keys []string
 	for k := range annos {
-- 
2.43.0


From 27a8fe7ca93a4d6c8043f7bb65ea7c32bea171a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 140/144] fix: unparser: HTTP actions are printed with their
 resource and annotations, and without a result if they have none

---
 unparser.go | 51 ++++++++++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/unparser.go b/unparser.go
index 4e41f27..94ad892 100644
--- a/unparser.go
+++ b/unparser.go
@@ -310,9 +310,12 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 
 func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	var opts []string
-	if hact.Name != "" {
-		if hact.Name != actionName(hact) {
-			opts = append(opts, "operation="+hact.Name)
+	dflt := &HttpDef{Method: hact.Method, Path: hact.Path}
+	ensureActionName(dflt)
+	if hact.Name != "" && (hact.Name != dflt.Name || hact.Resource != dflt.Resource) {
+		opts = append(opts, "operation="+hact.Name)
+		if hact.Resource != "" {
+			opts = append(opts, "resource="+hact.Resource)
 		}
 	}
 	opts = append(opts, annotationOptions(hact.Annotations)...)
@@ -324,22 +327,19 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, opt)
 	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
 	for _, in := range hact.Inputs {
-		s += indentAmount + g.sadlParamSpec(in)
+		s += g.sadlParamSpec(in, indentAmount)
 	}
-	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
-			Status: 200,
+	if hact.Expected != nil {
+		bcom := ""
+		if hact.Expected.Comment != "" {
+			bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
 		}
+		s += fmt.Sprintf("\n%s%sexpect %d%s {\n", bcom, indentAmount, hact.Expected.Status, AnnotationsAsString(hact.Expected.Annotations))
+		for _, out := range hact.Expected.Outputs {
+			s += g.sadlParamSpec(out, indentAmount+indentAmount)
+		}
+		s += indentAmount + "}\n"
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
-	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
-		s += indentAmount + indentAmount + g.sadlParamSpec(out)
-	}
-	s += "   }\n"
 	if len(hact.Exceptions) > 0 {
 		s += "\n"
 		for _, exc := range hact.Exceptions {
@@ -348,10 +348,10 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 				bcom = g.FormatComment(indentAmount, exc.Comment, 100, false)
 			}
 			if exc.Status == 0 {
-				s += fmt.Sprintf("%s%sexcept %s\n", bcom, indentAmount, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %s%s\n", bcom, indentAmount, exc.Type, AnnotationsAsString(exc.Annotations))
 			} else {
 				//todo: header outputs
-				s += fmt.Sprintf("%s%sexcept %d %s\n", bcom, indentAmount, exc.Status, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %d %s%s\n", bcom, indentAmount, exc.Status, exc.Type, AnnotationsAsString(exc.Annotations))
 			}
 		}
 	}
@@ -359,7 +359,7 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	return s
 }
 
-func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
+func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec, indent string) string {
 	var opts []string
 	if ps.Required {
 		opts = append(opts, "required")
@@ -370,21 +370,18 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	if ps.Header != "" {
 		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
+	opts = append(opts, annotationOptions(ps.Annotations)...)
 	com := ""
 	bcom := ""
-	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, indentAmount)
+	ts := g.sadlTypeSpec(&ps.TypeSpec, opts, indent)
 	if ps.Comment != "" {
-		if (len(ps.Comment) + len(ps.Name) + len(ts) + len(opt)) > 100 {
-			bcom = g.FormatComment("   ", ps.Comment, 100, false)[3:] + "   "
+		if (len(ps.Comment) + len(ps.Name) + len(ts)) > 100 {
+			bcom = g.FormatComment(indent, ps.Comment, 100, false)
 		} else {
 			com = " // " + ps.Comment
 		}
 	}
-	return bcom + ps.Name + " " + ts + opt + com + "\n"
+	return bcom + indent + ps.Name + " " + ts + com + "\n"
 }
 
 // bodyOptions - the options of a type with a body: those of a definition precede the body, those of a field follow it.
-- 
2.43.0


From 4ff290b2e0c3be3d7e19e1e569bab08febee3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 141/144] fix: unparser: outputs of operations are not printed
 with the options of the last input

---
 unparser.go | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/unparser.go b/unparser.go
index 94ad892..81f3315 100644
--- a/unparser.go
+++ b/unparser.go
@@ -253,47 +253,24 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 		opt = " (" + strings.Join(opts, ", ") + ")"
 	}
 	var s string
-	s = fmt.Sprintf("operation %s %s {\n", op.Name, opt)
+	s = fmt.Sprintf("operation %s%s {\n", op.Name, opt)
 	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
 	if len(op.Inputs) > 0 {
 		s += indentAmount + "inputs {\n"
 		for _, in := range op.Inputs {
 			opts = nil
-			opt = ""
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&in.TypeSpec, nil, indentAmount)
 			if in.Required {
 				opts = append(opts, "required")
 			}
-			if in.Comment != "" {
-				if (len(in.Comment) + len(in.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", in.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + in.Comment
-				}
-			}
-			if len(opts) > 0 {
-				opt = " (" + strings.Join(opts, ", ") + ")"
-			}
-			s += indentAmount + indentAmount + bcom + in.Name + " " + in.Type + opt + com + "\n"
+			opts = append(opts, annotationOptions(in.Annotations)...)
+			s += g.sadlOperationParam(in.Name, &in.TypeSpec, opts, in.Comment)
 		}
 		s += indentAmount + "}\n"
 	}
 	if len(op.Outputs) > 0 {
 		s += indentAmount + "outputs {\n"
 		for _, out := range op.Outputs {
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&out.TypeSpec, nil, indentAmount)
-			if out.Comment != "" {
-				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + out.Comment
-				}
-			}
-			s += indentAmount + indentAmount + bcom + out.Name + " " + out.Type + opt + com + "\n"
+			s += g.sadlOperationParam(out.Name, &out.TypeSpec, annotationOptions(out.Annotations), out.Comment)
 		}
 		s += indentAmount + "}\n"
 	}
@@ -308,6 +285,21 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 	return s
 }
 
+func (g *SadlGenerator) sadlOperationParam(name string, typespec *TypeSpec, opts []string, comment string) string {
+	indent := indentAmount + indentAmount
+	com := ""
+	bcom := ""
+	ts := g.sadlTypeSpec(typespec, opts, indent)
+	if comment != "" {
+		if (len(comment) + len(name) + len(ts)) > 100 {
+			bcom = g.FormatComment(indent, comment, 100, false)
+		} else {
+			com = " // " + comment
+		}
+	}
+	return bcom + indent + name + " " + ts + com + "\n"
+}
+
 func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	var opts []string
 	dflt := &HttpDef{Method: hact.Method, Path: hact.Path}
-- 
2.43.0


From 611139b2e51ee0fff64f144ee8911504ce46d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 142/144] fix: unparser: examples are printed with their
 annotations, and with a name only if they have one

---
 unparser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unparser.go b/unparser.go
index 81f3315..48d5b06 100644
--- a/unparser.go
+++ b/unparser.go
@@ -66,7 +66,16 @@ func (g *SadlGenerator) Generate() string {
 			return g.sadlHttpSpec(hact)
 		},
 		"example": func(ed *ExampleDef) string {
-			return fmt.Sprintf("example %s (name=%s) %s\n", ed.Target, ed.Name, Pretty(ed.Example))
+			var opts []string
+			if ed.Name != "" {
+				opts = append(opts, "name="+ed.Name)
+			}
+			opts = append(opts, annotationOptions(ed.Annotations)...)
+			opt := ""
+			if len(opts) > 0 {
+				opt = " (" + strings.Join(opts, ", ") + ")"
+			}
+			return fmt.Sprintf("example %s%s %s\n", ed.Target, opt, Pretty(ed.Example))
 		},
 	}
 	g.Begin()
-- 
2.43.0


From f9ed47dddf5c52e96979d5839b86ad72cf57c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 143/144] fix: unparser: names and namespaces that are not
 symbols are quoted

---
 unparser.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/unparser.go b/unparser.go
index 48d5b06..e2dec27 100644
--- a/unparser.go
+++ b/unparser.go
@@ -39,6 +39,24 @@ func (g *SadlGenerator) Generate() string {
 			}
 			return g.FormatComment("", s, 100, true)
 		},
+		"symbol": func(s string) string {
+			for i, ch := range s {
+				if !IsSymbolChar(ch, i == 0) {
+					return fmt.Sprintf("%q", s)
+				}
+			}
+			return s
+		},
+		"namespace": func(s string) string {
+			for _, word := range strings.Split(s, ".") {
+				for i, ch := range word {
+					if !IsSymbolChar(ch, i == 0) {
+						return fmt.Sprintf("%q", s)
+					}
+				}
+			}
+			return s
+		},
 		"literal": func(s string) string {
 			return fmt.Sprintf("%q", s)
 		},
@@ -436,8 +454,8 @@ func stringList(lst []string) string {
 	return result + end + "]"
 }
 
-const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{.Namespace}}
-{{end}}{{if .Name}}name {{.Name}}
+const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{namespace .Namespace}}
+{{end}}{{if .Name}}name {{symbol .Name}}
 {{end}}{{if .Base}}base {{literal .Base}}
 {{end}}{{if .Version}}version "{{.Version}}"
 {{end}}{{annotations .Annotations}}{{if .Types}}{{range .Types}}
-- 
2.43.0


From 03e804a0e63c36f14c1053b8e9937106f87488bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:34 +0000
Subject: [PATCH 144/144] fix: unparser: a comment of several lines is printed
 on lines of its own

---
 unparser.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unparser.go b/unparser.go
index e2dec27..6bc8b17 100644
--- a/unparser.go
+++ b/unparser.go
@@ -121,11 +121,14 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		s := "Enum" + head + " {\n"
 		for _, el := range ts.Elements {
 			com := ""
-			if el.Comment != "" {
+			bcom := ""
+			if strings.Contains(el.Comment, "\n") {
+				bcom = g.FormatComment(indent+indentAmount, el.Comment, 100, false)
+			} else if el.Comment != "" {
 				com = " // " + el.Comment
 			}
 			annos := AnnotationsAsString(el.Annotations)
-			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
+			s = s + bcom + indent + indentAmount + el.Symbol + annos + com + "\n"
 		}
 		return s + indent + "}" + tail
 	case "String":
@@ -191,7 +194,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			s := fmt.Sprintf("Struct%s {\n", head)
 			blockLine := ""
 			for _, fd := range ts.Fields {
-				if len(fd.Comment) > 60 {
+				if len(fd.Comment) > 60 || strings.Contains(fd.Comment, "\n") {
 					blockLine = "\n"
 					break
 				}
@@ -227,7 +230,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				com := ""
 				bcom := ""
 				if fd.Comment != "" {
-					if len(fd.Comment) > 100 {
+					if len(fd.Comment) > 100 || strings.Contains(fd.Comment, "\n") {
 						bcom = g.FormatComment(indent+indentAmount, fd.Comment, 100, false)
 					} else {
 						com = " // " + fd.Comment
@@ -318,7 +321,7 @@ func (g *SadlGenerator) sadlOperationParam(name string, typespec *TypeSpec, opts
 	bcom := ""
 	ts := g.sadlTypeSpec(typespec, opts, indent)
 	if comment != "" {
-		if (len(comment) + len(name) + len(ts)) > 100 {
+		if (len(comment)+len(name)+len(ts)) > 100 || strings.Contains(comment, "\n") {
 			bcom = g.FormatComment(indent, comment, 100, false)
 		} else {
 			com = " // " + comment
@@ -394,7 +397,7 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec, indent string) string {
 	bcom := ""
 	ts := g.sadlTypeSpec(&ps.TypeSpec, opts, indent)
 	if ps.Comment != "" {
-		if (len(ps.Comment) + len(ps.Name) + len(ts)) > 100 {
+		if (len(ps.Comment)+len(ps.Name)+len(ts)) > 100 || strings.Contains(ps.Comment, "\n") {
 			bcom = g.FormatComment(indent, ps.Comment, 100, false)
 		} else {
 			com = " // " + ps.Comment
-- 
2.43.0

