From 7d445d9f19b42b966fb71c5f3682974eb0400ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 01/43] fix: report malformed XML and output directory failures
 as errors

Parse stopped silently at the first XML syntax error and reported success,
and ended the whole process when the output directory could not be created.
---
 parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..6ce0bc3 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -100,10 +101,14 @@ func (opt *Options) Parse() (err error) {
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
-		token, _ := decoder.Token()
-		if token == nil {
+		var token xml.Token
+		if token, err = decoder.Token(); err == io.EOF {
+			err = nil
 			break
 		}
+		if err != nil {
+			return
+		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
@@ -133,8 +138,7 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
 		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+			return err
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
-- 
2.43.0


From 1d17827c54f407bc602856d0a28bc6f59f587efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 02/43] fix: report failing writes and unreadable input
 directories

A full disk left a truncated output file behind a success, and a directory
that could not be read was skipped silently.
---
 genC.go          | 2 +-
 genGo.go         | 2 +-
 genJava.go       | 2 +-
 genRust.go       | 2 +-
 genTypeScript.go | 2 +-
 utils.go         | 3 +++
 6 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..baea16c 100644
--- a/genC.go
+++ b/genC.go
@@ -51,7 +51,7 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genGo.go b/genGo.go
index c27fa36..f7ae741 100644
--- a/genGo.go
+++ b/genGo.go
@@ -91,7 +91,7 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genJava.go b/genJava.go
index 70cbc87..506ed19 100644
--- a/genJava.go
+++ b/genJava.go
@@ -59,7 +59,7 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
+	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	return err
 }
 
diff --git a/genRust.go b/genRust.go
index f3b9cb6..546d4e7 100644
--- a/genRust.go
+++ b/genRust.go
@@ -116,7 +116,7 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 }
 
diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..2e4cbfc 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -42,7 +42,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
 	return err
 
 }
diff --git a/utils.go b/utils.go
index 459a8e9..852382f 100644
--- a/utils.go
+++ b/utils.go
@@ -47,6 +47,9 @@ func GetFileList(path string) (files []string, err error) {
 	}
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+			if err != nil {
+				return err
+			}
 			files = append(files, fp)
 			return nil
 		})
-- 
2.43.0


From 1e7662ec9acdcef7294be66fe11987a7b2ff6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 03/43] fix: give attributes without a type definition the
 anySimpleType

---
 utils.go        | 1 +
 xmlAttribute.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/utils.go b/utils.go
index 852382f..7bd99e8 100644
--- a/utils.go
+++ b/utils.go
@@ -81,6 +81,7 @@ func PrepareOutputDir(path string) error {
 // https://www.w3.org/TR/xmlschema-2/#datatype
 var BuildInTypes = map[string][]string{
 	"anyType":            {"string", "string", "char", "String", "String"},
+	"anySimpleType":      {"string", "string", "char", "String", "String"},
 	"ENTITIES":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"ENTITY":             {"string", "string", "char", "String", "String"},
 	"ID":                 {"string", "string", "char", "String", "String"},
diff --git a/xmlAttribute.go b/xmlAttribute.go
index 74adf1a..3ae74aa 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -48,6 +48,12 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 	if opt.Attribute.Len() == 0 {
 		return
 	}
+	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
+		// The type of an attribute without any type definition is anySimpleType
+		if attribute.Type, err = opt.GetValueType("anySimpleType", protoTree); err != nil {
+			return
+		}
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
 		return
-- 
2.43.0


From 38cae33b58cc505e86c96575ba4d577423349691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:23 +0000
Subject: [PATCH 04/43] fix: keep anonymous types and the content of complex
 types apart

Elements, simple types and complex types were taken off their stacks at the
wrong place: facets and restrictions ended the simple type early, a local
element with an anonymous type was left behind on the element stack, and an
element without type took its own name as type.
---
 proto.go             |  2 ++
 xmlComplexType.go    | 30 ++++++++++----------------
 xmlElement.go        | 34 +++++++++++++++++-------------
 xmlEnumeration.go    | 12 -----------
 xmlExtension.go      |  9 +-------
 xmlFractionDigits.go |  6 ------
 xmlGroup.go          | 10 ++++-----
 xmlLength.go         |  6 ------
 xmlMaxExclusive.go   |  6 ------
 xmlMaxInclusive.go   |  6 ------
 xmlMaxLength.go      |  6 ------
 xmlMinExclusive.go   |  6 ------
 xmlMinInclusive.go   |  6 ------
 xmlMinLength.go      |  6 ------
 xmlPattern.go        | 13 ------------
 xmlRestriction.go    | 12 -----------
 xmlSimpleType.go     | 50 ++++++++++++++++++++++++++++++--------------
 xmlTotalDigits.go    |  6 ------
 xmlUnion.go          |  2 +-
 xmlWhiteSpace.go     |  6 ------
 20 files changed, 73 insertions(+), 161 deletions(-)

diff --git a/proto.go b/proto.go
index 5af61e7..7d28515 100644
--- a/proto.go
+++ b/proto.go
@@ -41,6 +41,8 @@ type Element struct {
 	Optional bool
 	Nillable bool
 	Default  string
+
+	inlineType bool // declared with an anonymous complex type
 }
 
 // Attribute declarations provide for: Local validation of attribute
diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..d47517d 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -13,27 +13,19 @@ import "encoding/xml"
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
-		opt.ComplexType.Push(&ComplexType{
-			Name: e.Name,
-		})
-	}
-
-	if opt.ComplexType.Len() == 0 {
-		c := ComplexType{}
-		opt.CurrentEle = opt.InElement
-		for _, attr := range ele.Attr {
-			if attr.Name.Local == "name" {
-				c.Name = attr.Value
-			}
+	c := ComplexType{}
+	opt.CurrentEle = opt.InElement
+	for _, attr := range ele.Attr {
+		if attr.Name.Local == "name" {
+			c.Name = attr.Value
 		}
-		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
-			c.Name = e.Name
-		}
-		opt.ComplexType.Push(&c)
 	}
+	if c.Name == "" && opt.Element.Len() > 0 {
+		e := opt.Element.Peek().(*Element)
+		c.Name = e.Name
+		e.Type, e.inlineType = e.Name, true
+	}
+	opt.ComplexType.Push(&c)
 	return
 }
 
diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..a3b3613 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -50,16 +50,26 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		}
 	}
 
+	if opt.Choice.Len() > 0 {
+		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
+	}
+
+	opt.Element.Push(&e)
+	return
+}
+
+// EndElement handles parsing event on the element end elements. The element
+// belongs to the innermost complex type or group that is still open.
+func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.Element.Len() == 0 {
+		return
+	}
+	e := *opt.Element.Pop().(*Element)
 	if e.Type == "" {
-		e.Type, err = opt.GetValueType(e.Name, protoTree)
-		if err != nil {
+		// The type of an element without any type definition is anyType
+		if e.Type, err = opt.GetValueType("anyType", protoTree); err != nil {
 			return
 		}
-		opt.Element.Push(&e)
-	}
-
-	if opt.Choice.Len() > 0 {
-		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
 	}
 
 	if opt.ComplexType.Len() > 0 {
@@ -87,14 +97,8 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		return
 	}
 
-	opt.Element.Push(&e)
-	return
-}
-
-// EndElement handles parsing event on the element end elements.
-func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
+	if !e.inlineType {
+		opt.ProtoTree = append(opt.ProtoTree, &e)
 	}
 	return
 }
diff --git a/xmlEnumeration.go b/xmlEnumeration.go
index 5bebc70..243ca8c 100644
--- a/xmlEnumeration.go
+++ b/xmlEnumeration.go
@@ -25,17 +25,5 @@ func (opt *Options) OnEnumeration(ele xml.StartElement, protoTree []interface{})
 // EndEnumeration handles parsing event on the enumeration end elements.
 // Enumeration defines a list of acceptable values.
 func (opt *Options) EndEnumeration(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		if opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlExtension.go b/xmlExtension.go
index 4e3803d..f66944b 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -37,12 +37,5 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 
 // EndExtension handles parsing event on the extension end elements.
 func (opt *Options) EndExtension(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
-}
\ No newline at end of file
+}
diff --git a/xmlFractionDigits.go b/xmlFractionDigits.go
index bbc87e9..fea8abd 100644
--- a/xmlFractionDigits.go
+++ b/xmlFractionDigits.go
@@ -15,11 +15,5 @@ import "encoding/xml"
 // the maximum number of decimal places allowed. Must be equal to or greater
 // than zero.
 func (opt *Options) EndFractionDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..87e44df 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -61,14 +61,14 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndGroup handles parsing event on the group end elements.
 func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
+	if opt.ComplexType.Len() > 0 || opt.Group.Len() == 0 {
+		return
+	}
+	if opt.InGroup == 1 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
 		opt.CurrentEle = ""
-		opt.InGroup--
-	}
-	if ele.Name.Local == opt.CurrentEle {
-		opt.InGroup--
 	}
+	opt.InGroup--
 	return
 }
 
diff --git a/xmlLength.go b/xmlLength.go
index d091fc3..7afdf6c 100644
--- a/xmlLength.go
+++ b/xmlLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the exact number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxExclusive.go b/xmlMaxExclusive.go
index d8c4d78..1ed5d56 100644
--- a/xmlMaxExclusive.go
+++ b/xmlMaxExclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MaxExclusive specifies the upper bounds for numeric values (the value must
 // be less than this value).
 func (opt *Options) EndMaxExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxInclusive.go b/xmlMaxInclusive.go
index d50fac9..99fc0ff 100644
--- a/xmlMaxInclusive.go
+++ b/xmlMaxInclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MaxInclusive specifies the upper bounds for numeric values (the value must
 // be less than or equal to this value).
 func (opt *Options) EndMaxInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMaxLength.go b/xmlMaxLength.go
index c0ee22e..231e518 100644
--- a/xmlMaxLength.go
+++ b/xmlMaxLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the maximum number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndMaxLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinExclusive.go b/xmlMinExclusive.go
index 1f46897..cf8d4b1 100644
--- a/xmlMinExclusive.go
+++ b/xmlMinExclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MinExclusive specifies the lower bounds for numeric values (the value must
 // be greater than this value).
 func (opt *Options) EndMinExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinInclusive.go b/xmlMinInclusive.go
index a9bd4f0..87c97d4 100644
--- a/xmlMinInclusive.go
+++ b/xmlMinInclusive.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // MinInclusive specifies the lower bounds for numeric values (the value must
 // be greater than or equal to this value).
 func (opt *Options) EndMinInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlMinLength.go b/xmlMinLength.go
index b60ea67..b68e1d8 100644
--- a/xmlMinLength.go
+++ b/xmlMinLength.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // specifies the minimum number of characters or list items allowed. Must be
 // equal to or greater than zero.
 func (opt *Options) EndMinLength(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlPattern.go b/xmlPattern.go
index 53d63ce..8ad89af 100644
--- a/xmlPattern.go
+++ b/xmlPattern.go
@@ -13,18 +13,5 @@ import "encoding/xml"
 // EndPattern handles parsing event on the pattern end elements. Pattern
 // defines the exact sequence of characters that are acceptable.
 func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 8f2880c..2ece9b3 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -37,17 +37,5 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 
 // EndRestriction handles parsing event on the restriction end elements.
 func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
-	if !opt.Element.Empty() {
-		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
-			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
-		}
-	}
 	return
 }
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 45f9e25..a24de8a 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -14,12 +14,7 @@ import "encoding/xml"
 // simpleType element defines a simple type and specifies the constraints and
 // information about the values of attributes or text-only elements.
 func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() == 0 {
-		opt.SimpleType.Push(&SimpleType{})
-	}
-	if opt.CurrentEle == "attributeGroup" {
-		// return
-	}
+	opt.SimpleType.Push(&SimpleType{})
 	opt.CurrentEle = opt.InElement
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "name" {
@@ -29,20 +24,43 @@ func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{})
 	return
 }
 
-// EndSimpleType handles parsing event on the simpleType end elements.
+// EndSimpleType handles parsing event on the simpleType end elements. An
+// anonymous simple type describes the simple type, attribute, element or
+// complex type that contains it, a named one is a component of the schema.
 func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
+	if opt.SimpleType.Len() == 0 {
 		return
 	}
-	if ele.Name.Local == opt.CurrentEle && opt.ComplexType.Len() == 1 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
-		opt.CurrentEle = ""
+	simpleType := opt.SimpleType.Pop().(*SimpleType)
+	if simpleType.Base == "" && len(simpleType.MemberTypes) == 0 {
+		if simpleType.Base, err = opt.GetValueType("anySimpleType", protoTree); err != nil {
+			return
+		}
 	}
-
-	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
-		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
-		opt.CurrentEle = ""
+	if opt.SimpleType.Len() > 0 {
+		parent := opt.SimpleType.Peek().(*SimpleType)
+		if !parent.Union && parent.Base == "" {
+			parent.Base = simpleType.Base
+			parent.List = parent.List || simpleType.List
+		}
+		return
+	}
+	if opt.Attribute.Len() > 0 {
+		attribute := opt.Attribute.Peek().(*Attribute)
+		attribute.Type, attribute.Plural = simpleType.Base, simpleType.List
+		return
+	}
+	if opt.Element.Len() > 0 && !opt.Element.Peek().(*Element).inlineType {
+		element := opt.Element.Peek().(*Element)
+		element.Type, element.Plural = simpleType.Base, element.Plural || simpleType.List
+		return
+	}
+	if opt.ComplexType.Len() > 0 {
+		if complexType := opt.ComplexType.Peek().(*ComplexType); complexType.Base == "" {
+			complexType.Base = simpleType.Base
+		}
+		return
 	}
+	opt.ProtoTree = append(opt.ProtoTree, simpleType)
 	return
 }
diff --git a/xmlTotalDigits.go b/xmlTotalDigits.go
index ae4e7de..de2434b 100644
--- a/xmlTotalDigits.go
+++ b/xmlTotalDigits.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // TotalDigits specifies the exact number of digits allowed. Must be greater
 // than zero.
 func (opt *Options) EndTotalDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..958635f 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -25,7 +25,7 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
-			memberTypes := strings.Split(attr.Value, " ")
+			memberTypes := strings.Fields(attr.Value)
 			for _, memberType := range memberTypes {
 				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
 				if err != nil {
diff --git a/xmlWhiteSpace.go b/xmlWhiteSpace.go
index 4ec2b78..65c4e29 100644
--- a/xmlWhiteSpace.go
+++ b/xmlWhiteSpace.go
@@ -14,11 +14,5 @@ import "encoding/xml"
 // WhiteSpace specifies how white space (line feeds, tabs, spaces, and
 // carriage returns) is handled.
 func (opt *Options) EndWhiteSpace(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
-		opt.CurrentEle = ""
-	}
 	return
 }
-- 
2.43.0


From efebd67259507ba403f17937e5cc76380a41036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 05/43] fix: apply the occurrence of sequences and confine it
 to their own content

maxOccurs of a sequence was ignored, that of a model group leaked into the
anonymous types inside it, a group reference with maxOccurs="1" was plural
and bounds beyond the range of int were refused.
---
 utils.go          | 16 ++++++++++++++++
 xmlChoice.go      | 13 ++-----------
 xmlComplexType.go |  3 +++
 xmlElement.go     | 11 ++---------
 xmlGroup.go       |  4 ++--
 xmlSequence.go    | 32 ++++++++++++++++++++++++++++++++
 6 files changed, 57 insertions(+), 22 deletions(-)
 create mode 100644 xmlSequence.go

diff --git a/utils.go b/utils.go
index 7bd99e8..4d137f1 100644
--- a/utils.go
+++ b/utils.go
@@ -9,6 +9,7 @@
 package xgen
 
 import (
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/http"
@@ -18,6 +19,7 @@ import (
 	"reflect"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -223,6 +225,20 @@ func callFuncByName(receiver interface{}, name string, params []reflect.Value) (
 	return
 }
 
+// parseMaxOccurs tells if a value of the maxOccurs attribute allows more than
+// one occurrence.
+func parseMaxOccurs(value string) (plural bool, err error) {
+	value = strings.TrimSpace(value)
+	if value == "unbounded" {
+		return true, nil
+	}
+	maxOccurs, err := strconv.ParseInt(value, 10, 64)
+	if errors.Is(err, strconv.ErrRange) {
+		err = nil
+	}
+	return maxOccurs > 1, err
+}
+
 // isValidUrl tests a string to determine if it is a well-structured url or
 // not.
 func isValidURL(toTest string) bool {
diff --git a/xmlChoice.go b/xmlChoice.go
index 539ad9a..f2c490c 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -8,10 +8,7 @@
 
 package xgen
 
-import (
-	"encoding/xml"
-	"strconv"
-)
+import "encoding/xml"
 
 // OnChoice handles parsing event on the choice start elements. The
 // choice element defines that one and only one of the contained element can be present within
@@ -20,15 +17,9 @@ func (opt *Options) OnChoice(ele xml.StartElement, protoTree []interface{}) (err
 	choice := Choice{}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "maxOccurs" {
-			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if choice.Plural, err = parseMaxOccurs(attr.Value); err != nil {
 				return
 			}
-			if attr.Value == "unbounded" || maxOccurs > 1 {
-				choice.Plural, err = true, nil
-			} else {
-				choice.Plural, err = false, nil
-			}
 		}
 	}
 	// Handle a case of a parent choice having plurality that children should inherit
diff --git a/xmlComplexType.go b/xmlComplexType.go
index d47517d..083c48c 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -26,12 +26,15 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 		e.Type, e.inlineType = e.Name, true
 	}
 	opt.ComplexType.Push(&c)
+	// Occurrence of the model groups around an anonymous type isn't a matter of its own content
+	opt.Choice.Push(&Choice{})
 	return
 }
 
 // EndComplexType handles parsing event on the complex end elements.
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	opt.Choice.Pop()
 	opt.CurrentEle = ""
 	return
 }
diff --git a/xmlElement.go b/xmlElement.go
index a3b3613..15dd375 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -8,10 +8,7 @@
 
 package xgen
 
-import (
-	"encoding/xml"
-	"strconv"
-)
+import "encoding/xml"
 
 // OnElement handles parsing event on the element start elements.
 func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (err error) {
@@ -35,13 +32,9 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if e.Plural, err = parseMaxOccurs(attr.Value); err != nil {
 				return
 			}
-			if attr.Value == "unbounded" || maxOccurs > 1 {
-				e.Plural, err = true, nil
-			}
 		}
 		if attr.Name.Local == "unbounded" {
 			if attr.Value != "0" {
diff --git a/xmlGroup.go b/xmlGroup.go
index 87e44df..e303815 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -27,8 +27,8 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" {
-				group.Plural = true
+			if group.Plural, err = parseMaxOccurs(attr.Value); err != nil {
+				return
 			}
 		}
 	}
diff --git a/xmlSequence.go b/xmlSequence.go
new file mode 100644
index 0000000..8ac2fb4
--- /dev/null
+++ b/xmlSequence.go
@@ -0,0 +1,32 @@
+// Copyright 2021 The xgen Authors. All rights reserved. Use of this source
+// code is governed by a BSD-style license that can be found in the LICENSE
+// file.
+//
+// Package xgen written in pure Go providing a set of functions that allow you
+// to parse XSD (XML schema files). This library needs Go version 1.10 or
+// later.
+
+package xgen
+
+import "encoding/xml"
+
+// OnSequence handles parsing event on the sequence start elements. Elements of
+// a sequence that may occur more than once are plural, like those of a choice.
+func (opt *Options) OnSequence(ele xml.StartElement, protoTree []interface{}) (err error) {
+	return opt.OnChoice(ele, protoTree)
+}
+
+// EndSequence handles parsing event on the sequence end elements.
+func (opt *Options) EndSequence(ele xml.EndElement, protoTree []interface{}) (err error) {
+	return opt.EndChoice(ele, protoTree)
+}
+
+// OnAll handles parsing event on the all start elements.
+func (opt *Options) OnAll(ele xml.StartElement, protoTree []interface{}) (err error) {
+	return opt.OnChoice(ele, protoTree)
+}
+
+// EndAll handles parsing event on the all end elements.
+func (opt *Options) EndAll(ele xml.EndElement, protoTree []interface{}) (err error) {
+	return opt.EndChoice(ele, protoTree)
+}
-- 
2.43.0


From 945ae2b6e7f12d88bf06112b1d2f753883cc4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 06/43] fix: merge repeated elements and references of a group
 with their plurality

---
 xmlElement.go | 7 ++++++-
 xmlGroup.go   | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xmlElement.go b/xmlElement.go
index 15dd375..85cfcd9 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -85,7 +85,12 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
-			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, e)
+			group := opt.Group.Peek().(*Group)
+			if element, i := findElement(&e, group.Elements); element != nil && element.Type == e.Type {
+				group.Elements[i].Plural = element.Plural || e.Plural
+			} else {
+				group.Elements = append(group.Elements, e)
+			}
 		}
 		return
 	}
diff --git a/xmlGroup.go b/xmlGroup.go
index e303815..fe9a2f1 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -45,7 +45,9 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 		if opt.InGroup > 0 {
 			opt.InGroup++
-			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			if !inGroups(&group, opt.Group.Peek().(*Group).Groups) {
+				opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			}
 			return
 		}
 
@@ -73,8 +75,10 @@ func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err e
 }
 
 func inGroups(group *Group, groups []Group) bool {
-	for _, g := range groups {
+	for i, g := range groups {
 		if g.Name == group.Name {
+			// As for elements, the highest plurality is preserved
+			groups[i].Plural = g.Plural || group.Plural
 			return true
 		}
 	}
-- 
2.43.0


From 73bce2cd7ed2187a7b383ba5e1cefe111e66afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 07/43] fix: resolve prefixed references by their local name,
 xml:lang and its like by their full name

---
 parser.go            | 4 ++++
 xmlAttribute.go      | 3 +++
 xmlAttributeGroup.go | 2 +-
 xmlElement.go        | 2 +-
 xmlGroup.go          | 2 +-
 5 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 6ce0bc3..0c4b361 100644
--- a/parser.go
+++ b/parser.go
@@ -158,6 +158,10 @@ func (opt *Options) Parse() (err error) {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
+		valueType = buildType
+		return
+	}
 	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
 		valueType = buildType
 		return
diff --git a/xmlAttribute.go b/xmlAttribute.go
index 3ae74aa..ac94dba 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -19,6 +19,9 @@ func (opt *Options) OnAttribute(ele xml.StartElement, protoTree []interface{}) (
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "ref" {
 			attribute.Name = attr.Value
+			if getNSPrefix(attr.Value) != "xml" {
+				attribute.Name = trimNSPrefix(attr.Value)
+			}
 			attribute.Type, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index 1e1cc57..03ad62d 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -21,7 +21,7 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 			attributeGroup.Name = attr.Value
 		}
 		if attr.Name.Local == "ref" {
-			attributeGroup.Name = attr.Value
+			attributeGroup.Name = trimNSPrefix(attr.Value)
 			attributeGroup.Ref, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
diff --git a/xmlElement.go b/xmlElement.go
index 85cfcd9..02bde7c 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -15,7 +15,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	e := Element{}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "ref" {
-			e.Name = attr.Value
+			e.Name = trimNSPrefix(attr.Value)
 			e.Type, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
diff --git a/xmlGroup.go b/xmlGroup.go
index fe9a2f1..bf838b7 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -20,7 +20,7 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			group.Name = attr.Value
 		}
 		if attr.Name.Local == "ref" {
-			group.Name = attr.Value
+			group.Name = trimNSPrefix(attr.Value)
 			group.Ref, err = opt.GetValueType(attr.Value, protoTree)
 			if err != nil {
 				return
-- 
2.43.0


From c5bb8d5463233a805cf836a4bc3e24d6bece2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 08/43] fix: keep references to attribute groups inside
 attribute groups

They were promoted to empty attribute groups that took the place of the
referenced definition.
---
 genC.go              | 4 ++++
 genGo.go             | 7 +++++++
 genJava.go           | 4 ++++
 genRust.go           | 4 ++++
 genTypeScript.go     | 4 ++++
 proto.go             | 9 +++++----
 xmlAttributeGroup.go | 6 ++++++
 7 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/genC.go b/genC.go
index baea16c..1495e30 100644
--- a/genC.go
+++ b/genC.go
@@ -225,6 +225,10 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional, plural, fieldType string
 			var ok bool
diff --git a/genGo.go b/genGo.go
index f7ae741..ba1f01c 100644
--- a/genGo.go
+++ b/genGo.go
@@ -286,6 +286,13 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			gen.ImportEncodingXML = true
 			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
 		}
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			if fieldType == "time.Time" {
+				gen.ImportTime = true
+			}
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/genJava.go b/genJava.go
index 506ed19..9f4600c 100644
--- a/genJava.go
+++ b/genJava.go
@@ -228,6 +228,10 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var required = ", required = true"
 			if attribute.Optional {
diff --git a/genRust.go b/genRust.go
index 546d4e7..3ef368b 100644
--- a/genRust.go
+++ b/genRust.go
@@ -301,6 +301,10 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
diff --git a/genTypeScript.go b/genTypeScript.go
index 2e4cbfc..da89fd1 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -215,6 +215,10 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/proto.go b/proto.go
index 7d28515..c69ba0f 100644
--- a/proto.go
+++ b/proto.go
@@ -119,10 +119,11 @@ type Choice struct {
 // <attributeGroup>).
 // https://www.w3.org/TR/xmlschema-1/structures.html#Attribute_Group_Definition
 type AttributeGroup struct {
-	Doc        string
-	Name       string
-	Ref        string
-	Attributes []Attribute
+	Doc            string
+	Name           string
+	Ref            string
+	Attributes     []Attribute
+	AttributeGroup []AttributeGroup
 }
 
 // Restriction are used to define acceptable values for XML elements or
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index 03ad62d..c9b495c 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -44,6 +44,12 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 
 // EndAttributeGroup handles parsing event on the attributeGroup end elements.
 func (opt *Options) EndAttributeGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.AttributeGroup.Len() > 1 {
+		// Reference inside of the definition of another attribute group
+		attributeGroup := opt.AttributeGroup.Pop().(*AttributeGroup)
+		opt.AttributeGroup.Peek().(*AttributeGroup).AttributeGroup = append(opt.AttributeGroup.Peek().(*AttributeGroup).AttributeGroup, *attributeGroup)
+		return
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())
 		opt.CurrentEle = ""
-- 
2.43.0


From 02cfeb5a2c0f62de1182851c03a8caff4bb44fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 09/43] fix: resolve the base of extensions and restrictions
 once

The type of the target language was looked up again as if it were an XML
Schema name, which turned the Java type of anyURI from QName to String.
---
 xmlExtension.go   | 5 +----
 xmlRestriction.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/xmlExtension.go b/xmlExtension.go
index f66944b..4bf50e2 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -22,10 +22,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 			}
 			if opt.ComplexType.Peek() != nil {
 				var complexType = opt.ComplexType.Peek().(*ComplexType)
-				complexType.Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				complexType.Base = valueType
 				if complexType.Name == "" {
 					complexType.Name = attr.Value
 				}
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 2ece9b3..3dc0a6f 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -22,10 +22,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 				return
 			}
 			if opt.SimpleType.Peek() != nil {
-				opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				opt.SimpleType.Peek().(*SimpleType).Base = valueType
 				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
 					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
 				}
-- 
2.43.0


From b2bf8830637a576a2f177b81e41a3a7e8a4a7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 10/43] fix: attach documentation to its own component and
 ignore foreign markup

Text anywhere in the schema became documentation of whatever component was on
a stack, elements inside documentation and appinfo were taken for schema
components, attributes of other namespaces for those of the schema, and an
element called charData stopped the program.
---
 parser.go            | 71 +++++++++++++++++++++++++++++++++++++++++++-
 utils.go             |  8 +++++
 xmlAttribute.go      |  1 +
 xmlAttributeGroup.go |  1 +
 xmlCharData.go       | 56 ++++++++--------------------------
 xmlComplexType.go    |  3 +-
 xmlElement.go        |  1 +
 xmlGroup.go          |  1 +
 xmlSimpleType.go     |  4 ++-
 9 files changed, 99 insertions(+), 47 deletions(-)

diff --git a/parser.go b/parser.go
index 0c4b361..b3536d5 100644
--- a/parser.go
+++ b/parser.go
@@ -9,6 +9,7 @@
 package xgen
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"io"
@@ -51,6 +52,13 @@ type Options struct {
 	Group          *Stack
 	AttributeGroup *Stack
 	Choice         *Stack
+
+	schemaSpace   *string      // namespace of the schema element
+	ignored       int          // depth inside of annotations and foreign elements
+	documentation bool         // inside of a documentation element
+	docText       bytes.Buffer // text of the documentation so far
+	docTarget     *string      // documentation of the component just opened
+	docTargets    []*string    // documentation of the open components
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -98,6 +106,11 @@ func (opt *Options) Parse() (err error) {
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
 
+	opt.schemaSpace = nil
+	opt.ignored = 0
+	opt.documentation = false
+	opt.docTargets = nil
+
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
@@ -112,14 +125,23 @@ func (opt *Options) Parse() (err error) {
 
 		switch element := token.(type) {
 		case xml.StartElement:
-
+			if opt.ignore(&element) {
+				break
+			}
 			opt.InElement = element.Name.Local
+			opt.docTarget = nil
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
+			opt.docTargets = append(opt.docTargets, opt.docTarget)
 
 		case xml.EndElement:
+			if opt.ignored > 0 {
+				opt.endIgnored()
+				break
+			}
+			opt.docTargets = opt.docTargets[:len(opt.docTargets)-1]
 			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
@@ -155,6 +177,53 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// ignore tells if the given start element has no meaning for the components of
+// the schema, which is the case for elements of other namespaces, for
+// documentation and application information and for everything inside of them.
+// Attributes of other namespaces are removed from the element.
+func (opt *Options) ignore(element *xml.StartElement) bool {
+	if opt.ignored > 0 {
+		opt.ignored++
+		return true
+	}
+	if opt.schemaSpace == nil && element.Name.Local == "schema" {
+		space := element.Name.Space
+		opt.schemaSpace = &space
+	}
+	if opt.schemaSpace != nil && element.Name.Space != *opt.schemaSpace {
+		opt.ignored++
+		return true
+	}
+	if element.Name.Local == "documentation" || element.Name.Local == "appinfo" {
+		opt.ignored++
+		opt.documentation = element.Name.Local == "documentation"
+		opt.docText.Reset()
+		return true
+	}
+	var attrs []xml.Attr
+	for _, attr := range element.Attr {
+		if attr.Name.Space == "" || element.Name.Local == "schema" {
+			attrs = append(attrs, attr)
+		}
+	}
+	element.Attr = attrs
+	return false
+}
+
+// endIgnored handles the end of an element that has been ignored. The text of
+// a documentation element goes to the component that it is an annotation of.
+func (opt *Options) endIgnored() {
+	opt.ignored--
+	if opt.ignored > 0 || !opt.documentation {
+		return
+	}
+	opt.documentation = false
+	if n := len(opt.docTargets); n > 0 && opt.docTargets[n-1] != nil {
+		target := opt.docTargets[n-1]
+		*target = strings.TrimSpace(*target + "\n" + strings.TrimSpace(opt.docText.String()))
+	}
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
diff --git a/utils.go b/utils.go
index 4d137f1..8a8c4c5 100644
--- a/utils.go
+++ b/utils.go
@@ -213,6 +213,14 @@ func ToTitle(val string) string {
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
 	if function.IsValid() {
+		if function.Type().NumIn() != len(params) {
+			return
+		}
+		for i, param := range params {
+			if !param.Type().AssignableTo(function.Type().In(i)) {
+				return
+			}
+		}
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
diff --git a/xmlAttribute.go b/xmlAttribute.go
index ac94dba..af56f30 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -43,6 +43,7 @@ func (opt *Options) OnAttribute(ele xml.StartElement, protoTree []interface{}) (
 		}
 	}
 	opt.Attribute.Push(&attribute)
+	opt.docTarget = &attribute.Doc
 	return
 }
 
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index c9b495c..ac9be60 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -32,6 +32,7 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 		opt.InAttributeGroup = true
 		opt.CurrentEle = opt.InElement
 		opt.AttributeGroup.Push(&attributeGroup)
+		opt.docTarget = &attributeGroup.Doc
 		return
 	}
 
diff --git a/xmlCharData.go b/xmlCharData.go
index f934af5..f457a85 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -8,53 +8,21 @@
 
 package xgen
 
-import "strings"
+import "encoding/xml"
 
-// OnCharData handles parsing event on the documentation start elements. The
-// documentation element specifies information to be read or used by users
-// within an annotation element.
+// OnCharData handles parsing event on the charter data elements.
 func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error) {
-	if strings.TrimSpace(ele) == "" {
-		return
+	if opt.documentation {
+		opt.docText.WriteString(ele)
 	}
-	ele = strings.TrimSpace(ele)
-	if opt.InAttributeGroup {
-		if opt.AttributeGroup.Peek() != nil {
-			opt.AttributeGroup.Peek().(*AttributeGroup).Doc = ele
-			return
-		}
-	}
-	if opt.InElement != "" {
-		if opt.Element.Peek() != nil {
-			opt.Element.Peek().(*Element).Doc = ele
-			return
-		}
-	}
-	if opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Doc = ele
-		return
-	}
-	switch opt.CurrentEle {
-	case "simpleType":
-		if opt.SimpleType.Peek() != nil {
-			opt.SimpleType.Peek().(*SimpleType).Doc = ele
-			return
-		}
-	case "complexType":
-		if opt.Attribute.Len() > 0 {
-			opt.Attribute.Peek().(*Attribute).Doc = ele
-			return
-		}
-		if opt.ComplexType.Peek() != nil {
-			l := len(opt.ComplexType.Peek().(*ComplexType).Attributes)
-			if l > 0 {
-				opt.ComplexType.Peek().(*ComplexType).Attributes[l-1].Doc = ele
-				return
-			}
-			opt.ComplexType.Peek().(*ComplexType).Doc = ele
-			return
-		}
-	default:
+	return
+}
+
+// OnAnnotation handles parsing event on the annotation start elements. The
+// documentation inside of an annotation belongs to the component around it.
+func (opt *Options) OnAnnotation(ele xml.StartElement, protoTree []interface{}) (err error) {
+	if n := len(opt.docTargets); n > 0 {
+		opt.docTarget = opt.docTargets[n-1]
 	}
 	return
 }
diff --git a/xmlComplexType.go b/xmlComplexType.go
index 083c48c..9a4585a 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -22,10 +22,11 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 	}
 	if c.Name == "" && opt.Element.Len() > 0 {
 		e := opt.Element.Peek().(*Element)
-		c.Name = e.Name
+		c.Name, c.Doc = e.Name, e.Doc
 		e.Type, e.inlineType = e.Name, true
 	}
 	opt.ComplexType.Push(&c)
+	opt.docTarget = &c.Doc
 	// Occurrence of the model groups around an anonymous type isn't a matter of its own content
 	opt.Choice.Push(&Choice{})
 	return
diff --git a/xmlElement.go b/xmlElement.go
index 02bde7c..95c59fb 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -48,6 +48,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	}
 
 	opt.Element.Push(&e)
+	opt.docTarget = &e.Doc
 	return
 }
 
diff --git a/xmlGroup.go b/xmlGroup.go
index bf838b7..85b6994 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -41,6 +41,7 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			opt.InGroup++
 			opt.CurrentEle = opt.InElement
 			opt.Group.Push(&group)
+			opt.docTarget = &group.Doc
 			return
 		}
 		if opt.InGroup > 0 {
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index a24de8a..b44762c 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -14,7 +14,9 @@ import "encoding/xml"
 // simpleType element defines a simple type and specifies the constraints and
 // information about the values of attributes or text-only elements.
 func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	opt.SimpleType.Push(&SimpleType{})
+	simpleType := SimpleType{}
+	opt.SimpleType.Push(&simpleType)
+	opt.docTarget = &simpleType.Doc
 	opt.CurrentEle = opt.InElement
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "name" {
-- 
2.43.0


From 33ab8170ba0bc348f6e94870683364efac35ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 11/43] fix: serialize generators, which share the table of
 declared names

---
 genC.go          | 2 ++
 genGo.go         | 2 ++
 genJava.go       | 2 ++
 genRust.go       | 2 ++
 genTypeScript.go | 2 ++
 utils.go         | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/genC.go b/genC.go
index 1495e30..d6f0916 100644
--- a/genC.go
+++ b/genC.go
@@ -37,6 +37,8 @@ var cBuildInType = map[string]bool{
 // GenC generates C programming language source code for XML schema definition
 // files.
 func (gen *CodeGenerator) GenC() error {
+	generatorMutex.Lock()
+	defer generatorMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genGo.go b/genGo.go
index ba1f01c..04c2713 100644
--- a/genGo.go
+++ b/genGo.go
@@ -59,6 +59,8 @@ var goBuildinType = map[string]bool{
 // GenGo generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
+	generatorMutex.Lock()
+	defer generatorMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genJava.go b/genJava.go
index 9f4600c..eae2e4c 100644
--- a/genJava.go
+++ b/genJava.go
@@ -32,6 +32,8 @@ var javaBuildInType = map[string]bool{
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
+	generatorMutex.Lock()
+	defer generatorMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genRust.go b/genRust.go
index 3ef368b..f89a7a3 100644
--- a/genRust.go
+++ b/genRust.go
@@ -96,6 +96,8 @@ var (
 // GenRust generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenRust() error {
+	generatorMutex.Lock()
+	defer generatorMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genTypeScript.go b/genTypeScript.go
index da89fd1..22874ac 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -28,6 +28,8 @@ var typeScriptBuildInType = map[string]bool{
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
+	generatorMutex.Lock()
+	defer generatorMutex.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/utils.go b/utils.go
index 8a8c4c5..63c7bba 100644
--- a/utils.go
+++ b/utils.go
@@ -21,6 +21,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 )
@@ -30,6 +31,7 @@ var (
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
 	fieldNameCount map[string]int
+	generatorMutex sync.Mutex // guards fieldNameCount
 )
 
 // ToSnakeCase converts the provided string to snake_case.
-- 
2.43.0


From bad84c9ea9afc6d398ea7d7438a6f16945ed947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 12/43] fix: import the packages that any declaration of the Go
 output refers to

---
 genGo.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/genGo.go b/genGo.go
index 04c2713..bb9338a 100644
--- a/genGo.go
+++ b/genGo.go
@@ -10,7 +10,10 @@ package xgen
 
 import (
 	"fmt"
+	"go/ast"
 	"go/format"
+	"go/parser"
+	"go/token"
 	"os"
 	"reflect"
 	"strings"
@@ -74,6 +77,7 @@ func (gen *CodeGenerator) GenGo() error {
 		return err
 	}
 	defer f.Close()
+	gen.goImports()
 	var importPackage, packages string
 	if gen.ImportTime {
 		packages += "\t\"time\"\n"
@@ -97,6 +101,25 @@ func (gen *CodeGenerator) GenGo() error {
 	return err
 }
 
+// goImports notes the packages that the generated declarations refer to.
+func (gen *CodeGenerator) goImports() {
+	file, err := parser.ParseFile(token.NewFileSet(), "", "package schema\n"+gen.Field, 0)
+	if err != nil {
+		return
+	}
+	ast.Inspect(file, func(node ast.Node) bool {
+		if selector, ok := node.(*ast.SelectorExpr); ok {
+			switch fmt.Sprint(selector.X) {
+			case "time":
+				gen.ImportTime = true
+			case "xml":
+				gen.ImportEncodingXML = true
+			}
+		}
+		return true
+	})
+}
+
 func genGoFieldName(name string, unique bool) (fieldName string) {
 	for _, str := range strings.Split(name, ":") {
 		fieldName += MakeFirstUpperCase(str)
-- 
2.43.0


From 8404b3d0d6369593eb74de50090723a78495facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 13/43] fix: take the plurality of group members in Rust from
 the members

Members of a group followed the plurality of the group definition, which has
none, and required attributes of an attribute group became vectors in Rust
and were given types that do not exist in Java.
---
 genJava.go | 2 +-
 genRust.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/genJava.go b/genJava.go
index eae2e4c..c802a8a 100644
--- a/genJava.go
+++ b/genJava.go
@@ -240,7 +240,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genRust.go b/genRust.go
index f89a7a3..7e17f68 100644
--- a/genRust.go
+++ b/genRust.go
@@ -277,7 +277,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
-			if v.Plural {
+			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
@@ -286,7 +286,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
-			if v.Plural {
+			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
@@ -311,7 +311,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From c7622abc334c13d5abfde0ea64b638b42fab6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 14/43] fix: write lists of built-in types as arrays in
 TypeScript and C

---
 genC.go          | 9 +++++----
 genTypeScript.go | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/genC.go b/genC.go
index d6f0916..1d6c1c4 100644
--- a/genC.go
+++ b/genC.go
@@ -103,7 +103,7 @@ func genCFieldType(name string) string {
 func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
@@ -200,11 +200,12 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, element := range v.Elements {
-			var plural string
-			if element.Plural {
+			var plural, fieldType string
+			var ok bool
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
 		}
 
 		for _, group := range v.Groups {
diff --git a/genTypeScript.go b/genTypeScript.go
index 22874ac..f6cba8b 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -91,8 +91,8 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), true)
-			content := fmt.Sprintf(" = %s;\n", fieldType)
+			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+			content := fmt.Sprintf(" = Array<%s>;\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genTypeScriptFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%sexport type %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From d99ac49f6173389ff0f7b41a8b8e3f04244dca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 15/43] fix: follow chains of simple types whatever the order
 of declaration

References to a type that is declared later, or that restricts another
user-defined type, ended at the first name, so that union members and bases
of simple content named a type instead of its built-in base.
---
 genC.go          |  1 +
 genGo.go         |  8 +++++---
 genJava.go       |  6 ++++--
 genRust.go       |  4 +++-
 genTypeScript.go |  8 +++++---
 utils.go         | 13 +++++++++++++
 6 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/genC.go b/genC.go
index 1d6c1c4..c8f9490 100644
--- a/genC.go
+++ b/genC.go
@@ -121,6 +121,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
+				memberType = getBasefromSimpleType(trimNSPrefix(memberType), gen.ProtoTree)
 				var plural, fieldType string
 				var ok bool
 				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {
diff --git a/genGo.go b/genGo.go
index bb9338a..11747cd 100644
--- a/genGo.go
+++ b/genGo.go
@@ -185,6 +185,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
+				memberType = getBasefromSimpleType(trimNSPrefix(memberType), gen.ProtoTree)
 				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), genGoFieldType(memberType))
 			}
 			content += "}\n"
@@ -249,14 +250,15 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			}
 			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)
 		}
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
 		if len(v.Base) > 0 {
 			// If the type is a built-in type, generate a Value field as chardata.
 			// If it's not built-in one, embed the base type in the struct for the child type
 			// to effectively inherit all of the base type's fields
-			if isGoBuiltInType(v.Base) {
-				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(v.Base))
+			if isGoBuiltInType(base) {
+				content += fmt.Sprintf("\tValue\t%s\t`xml:\",chardata\"`\n", genGoFieldType(base))
 			} else {
-				content += fmt.Sprintf("\t%s\n", genGoFieldType(v.Base))
+				content += fmt.Sprintf("\t%s\n", genGoFieldType(base))
 			}
 		}
 		content += "}\n"
diff --git a/genJava.go b/genJava.go
index c802a8a..23c7e03 100644
--- a/genJava.go
+++ b/genJava.go
@@ -121,6 +121,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
+				memberType = getBasefromSimpleType(trimNSPrefix(memberType), gen.ProtoTree)
 				fieldType := genJavaFieldType(memberType)
 				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, genJavaFieldName(memberName, false))
 			}
@@ -174,7 +175,8 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
 		}
 
-		if len(v.Base) > 0 && isBuiltInJavaType(v.Base) {
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+		if len(v.Base) > 0 && isBuiltInJavaType(base) {
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content += fmt.Sprintf("\t@XmlValue\n\tprotected %s value;\n", fieldType)
 		}
@@ -184,7 +186,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 		fieldName := genJavaFieldName(v.Name, true)
 
 		typeExtension := ""
-		if len(v.Base) > 0 && !isBuiltInJavaType(v.Base) {
+		if len(v.Base) > 0 && !isBuiltInJavaType(base) {
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
 		}
diff --git a/genRust.go b/genRust.go
index 7e17f68..d98a398 100644
--- a/genRust.go
+++ b/genRust.go
@@ -194,6 +194,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
+				memberType = getBasefromSimpleType(trimNSPrefix(memberType), gen.ProtoTree)
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
@@ -249,9 +250,10 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 				}
 			}
 		}
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
 		if len(v.Base) > 0 {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
-			if isRustBuiltInType(v.Base) {
+			if isRustBuiltInType(base) {
 				content += fmt.Sprintf("\t#[serde(rename = \"$value\")]\n\tpub value: %s,\n", fieldType)
 			} else {
 				fieldName := genRustFieldName(fieldType)
diff --git a/genTypeScript.go b/genTypeScript.go
index f6cba8b..e719d54 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -109,6 +109,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
+				memberType = getBasefromSimpleType(trimNSPrefix(memberType), gen.ProtoTree)
 				content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(memberName, false), genTypeScriptFieldType(memberType, false))
 			}
 			content += "}\n"
@@ -170,7 +171,8 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), fieldType)
 		}
 
-		if len(v.Base) > 0 && isBuiltInTypeScriptType(v.Base) {
+		base := getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)
+		if len(v.Base) > 0 && isBuiltInTypeScriptType(base) {
 			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 		}
@@ -178,7 +180,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 		gen.StructAST[v.Name] = content
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		typeExtension := ""
-		if len(v.Base) > 0 && !isBuiltInTypeScriptType(v.Base) {
+		if len(v.Base) > 0 && !isBuiltInTypeScriptType(base) {
 			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
 			content += fmt.Sprintf("\tValue: %s;\n", fieldType)
 			typeExtension = fmt.Sprintf(" extends %s ", fieldType)
@@ -190,7 +192,7 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 
 func isBuiltInTypeScriptType(typeName string) bool {
 	_, builtIn := typeScriptBuildInType[typeName]
-	return builtIn
+	return builtIn || typeName == "any" || strings.HasPrefix(typeName, "Array<")
 }
 
 // TypeScriptGroup generates code for group XML schema in TypeScript language syntax.
diff --git a/utils.go b/utils.go
index 63c7bba..3ad2dd0 100644
--- a/utils.go
+++ b/utils.go
@@ -152,7 +152,20 @@ func getBuildInTypeByLang(value, lang string) (buildType string, ok bool) {
 	return
 }
 
+// getBasefromSimpleType follows the definitions of simple types, attributes and
+// elements in the given proto tree from a name to the type it stands for.
 func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
+	for range XSDSchema {
+		base := getDirectBase(name, XSDSchema)
+		if base == name || base == "" {
+			break
+		}
+		name = trimNSPrefix(base)
+	}
+	return name
+}
+
+func getDirectBase(name string, XSDSchema []interface{}) string {
 	for _, ele := range XSDSchema {
 		switch v := ele.(type) {
 		case *SimpleType:
-- 
2.43.0


From 3b50f303c346059ff289a6c0f81e2eba0dd13a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 16/43] fix: refuse unsupported languages and accept options
 without maps

---
 parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parser.go b/parser.go
index b3536d5..132ebc1 100644
--- a/parser.go
+++ b/parser.go
@@ -72,6 +72,22 @@ func NewParser(options *Options) *Options {
 // parse will fetch schema used in <import> or <include> statements.
 func (opt *Options) Parse() (err error) {
 	opt.FileDir = filepath.Dir(opt.FilePath)
+	for _, m := range []*map[string]bool{&opt.IncludeMap, &opt.ParseFileList} {
+		if *m == nil {
+			*m = make(map[string]bool)
+		}
+	}
+	for _, m := range []*map[string]string{&opt.LocalNameNSMap, &opt.NSSchemaLocationMap} {
+		if *m == nil {
+			*m = make(map[string]string)
+		}
+	}
+	if opt.ParseFileMap == nil {
+		opt.ParseFileMap = make(map[string][]interface{})
+	}
+	if !opt.Extract && !reflect.ValueOf(&CodeGenerator{}).MethodByName("Gen"+MakeFirstUpperCase(opt.Lang)).IsValid() {
+		return fmt.Errorf("unsupported language %q", opt.Lang)
+	}
 	var fi os.FileInfo
 	fi, err = os.Stat(opt.FilePath)
 	if err != nil {
-- 
2.43.0


From 49b210adefcabaa8cb93020900006ff5082e1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 17/43] fix: derive output paths from the position below the
 input directory

Spellings of the input path such as ./xsd put the output elsewhere, and a
path that was no prefix or an empty -o led out of the output directory.
---
 cmd/xgen/xgen.go |  1 +
 parser.go        | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cmd/xgen/xgen.go b/cmd/xgen/xgen.go
index fa45405..80ea789 100644
--- a/cmd/xgen/xgen.go
+++ b/cmd/xgen/xgen.go
@@ -45,6 +45,7 @@ type Config struct {
 // Cfg are the default config for xgen. The default package name and output
 // directory are "schema" and "xgen_out".
 var Cfg = Config{
+	O:       "xgen_out",
 	Pkg:     "schema",
 	Version: "0.1.0",
 }
diff --git a/parser.go b/parser.go
index 132ebc1..7ecedd6 100644
--- a/parser.go
+++ b/parser.go
@@ -174,7 +174,7 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
+		path := opt.outputPath()
 		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return err
 		}
@@ -193,6 +193,27 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// outputPath returns where the output for the schema goes, without extension:
+// the place below the output directory that the schema has below the input
+// directory. Schemas outside of the input directory stay below the output
+// directory as well.
+func (opt *Options) outputPath() string {
+	path, err := filepath.Rel(opt.InputDir, opt.FilePath)
+	if err != nil && opt.InputDir != "" {
+		// One is an absolute path and the other isn't
+		var input, file string
+		if input, err = filepath.Abs(opt.InputDir); err == nil {
+			if file, err = filepath.Abs(opt.FilePath); err == nil {
+				path, err = filepath.Rel(input, file)
+			}
+		}
+	}
+	if err != nil {
+		path = opt.FilePath
+	}
+	return filepath.Join(opt.OutputDir, filepath.Clean(string(filepath.Separator) + path)[1:])
+}
+
 // ignore tells if the given start element has no meaning for the components of
 // the schema, which is the case for elements of other namespaces, for
 // documentation and application information and for everything inside of them.
-- 
2.43.0


From 2029b4f1c8eaa64ed825854c4187bf82af5e4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 18/43] fix: resolve names through all included and imported
 schemas

Includes were searched in random order, only one level deep and relative to
the wrong directory, errors of dependent schemas were dropped, and an
imported schema overwrote the prefixes of the schema that imports it and lost
its package and its place below the output directory.
---
 parser.go | 123 +++++++++++++++++++++++++++++++++++-------------------
 schema.go |   5 +++
 utils.go  |  25 +++++++++++
 3 files changed, 110 insertions(+), 43 deletions(-)

diff --git a/parser.go b/parser.go
index 7ecedd6..333c8ea 100644
--- a/parser.go
+++ b/parser.go
@@ -16,6 +16,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -59,6 +60,8 @@ type Options struct {
 	docText       bytes.Buffer // text of the documentation so far
 	docTarget     *string      // documentation of the component just opened
 	docTargets    []*string    // documentation of the open components
+
+	extracts map[string]*Options // schemas that have been parsed to resolve types
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -85,6 +88,10 @@ func (opt *Options) Parse() (err error) {
 	if opt.ParseFileMap == nil {
 		opt.ParseFileMap = make(map[string][]interface{})
 	}
+	if opt.extracts == nil {
+		opt.extracts = make(map[string]*Options)
+		defer func() { opt.extracts = nil }()
+	}
 	if !opt.Extract && !reflect.ValueOf(&CodeGenerator{}).MethodByName("Gen"+MakeFirstUpperCase(opt.Lang)).IsValid() {
 		return fmt.Errorf("unsupported language %q", opt.Lang)
 	}
@@ -291,71 +298,101 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	}
 	if fi.IsDir() {
 		// extract type of value from include schema.
-		valueType = ""
-		for include := range opt.IncludeMap {
-			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
-				OutputDir:           opt.OutputDir,
-				Extract:             true,
-				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
-				ParseFileList:       opt.ParseFileList,
-				ParseFileMap:        opt.ParseFileMap,
-				ProtoTree:           make([]interface{}, 0),
-			})
-			if parser.Parse() != nil {
-				return
-			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
-				valueType = vt
-			}
+		if len(opt.IncludeMap) == 0 {
+			return
 		}
-		if valueType == "" {
-			valueType = trimNSPrefix(value)
+		var parser *Options
+		if parser, err = opt.extract(opt.FilePath); err != nil || isDeclared(valueType, parser.ProtoTree) {
+			return
 		}
-		return
+		return opt.getDependentType(valueType, opt.FilePath, nil)
 	}
 
 	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
 	if !ok {
 		parser := NewParser(&Options{
 			FilePath:            xsdFile,
+			InputDir:            opt.InputDir,
 			OutputDir:           opt.OutputDir,
 			Extract:             false,
 			Lang:                opt.Lang,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
+			Package:             opt.Package,
+			IncludeMap:          make(map[string]bool),
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
 			ParseFileList:       opt.ParseFileList,
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
+			RemoteSchema:        opt.RemoteSchema,
+			extracts:            opt.extracts,
 		})
-		if parser.Parse() != nil {
+		if err = parser.Parse(); err != nil {
 			return
 		}
 		depXSDSchema = parser.ProtoTree
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), depXSDSchema)
-	if valueType != trimNSPrefix(value) && valueType != "" {
+	return opt.getDependentType(trimNSPrefix(value), xsdFile, depXSDSchema)
+}
+
+// getDependentType resolves the name of a type with the given components and
+// those of a schema file and all the schemas that it depends on. It fails if
+// the type isn't found and one of the schemas can't be read.
+func (opt *Options) getDependentType(name, file string, XSDSchema []interface{}) (valueType string, err error) {
+	dependencies, err := opt.dependencies(file, make(map[string]bool))
+	dependencies = append(append([]interface{}{}, XSDSchema...), dependencies...)
+	if isDeclared(name, dependencies) {
+		err = nil
+	}
+	return getBasefromSimpleType(name, dependencies), err
+}
+
+// dependencies returns the components of a schema file and of all the schemas
+// that it includes or imports, directly or not.
+func (opt *Options) dependencies(file string, visited map[string]bool) (XSDSchema []interface{}, err error) {
+	if file = filepath.Clean(file); visited[file] {
 		return
 	}
-	parser := NewParser(&Options{
-		FilePath:            xsdFile,
-		OutputDir:           opt.OutputDir,
-		Extract:             true,
-		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
-		ParseFileList:       opt.ParseFileList,
-		ParseFileMap:        opt.ParseFileMap,
-		ProtoTree:           make([]interface{}, 0),
-	})
-	if parser.Parse() != nil {
+	visited[file] = true
+	parser, err := opt.extract(file)
+	if err != nil {
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
+	XSDSchema = append(XSDSchema, parser.ProtoTree...)
+	var locations []string
+	for include := range parser.IncludeMap {
+		locations = append(locations, include)
+	}
+	for _, schemaLocation := range parser.NSSchemaLocationMap {
+		locations = append(locations, schemaLocation)
+	}
+	sort.Strings(locations)
+	for _, location := range locations {
+		if isValidURL(location) {
+			continue
+		}
+		dependency, dependencyErr := opt.dependencies(filepath.Join(parser.FileDir, location), visited)
+		if err == nil {
+			err = dependencyErr
+		}
+		XSDSchema = append(XSDSchema, dependency...)
+	}
+	return
+}
+
+// extract parses a schema file alone, without generating code.
+func (opt *Options) extract(file string) (parser *Options, err error) {
+	file = filepath.Clean(file)
+	if parser, ok := opt.extracts[file]; ok {
+		return parser, nil
+	}
+	parser = NewParser(&Options{
+		FilePath:  file,
+		Extract:   true,
+		Lang:      opt.Lang,
+		ProtoTree: make([]interface{}, 0),
+	})
+	if err = parser.Parse(); err == nil {
+		opt.extracts[file] = parser
+	}
 	return
 }
diff --git a/schema.go b/schema.go
index de72f46..641f95e 100644
--- a/schema.go
+++ b/schema.go
@@ -15,6 +15,9 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
 		}
+		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
+			opt.LocalNameNSMap[""] = ele.Value
+		}
 	}
 }
 
@@ -24,6 +27,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
diff --git a/utils.go b/utils.go
index 3ad2dd0..67b1979 100644
--- a/utils.go
+++ b/utils.go
@@ -185,6 +185,31 @@ func getDirectBase(name string, XSDSchema []interface{}) string {
 	return name
 }
 
+// isDeclared tells if the proto tree has a component of the given name.
+func isDeclared(name string, XSDSchema []interface{}) bool {
+	for _, ele := range XSDSchema {
+		var declared string
+		switch v := ele.(type) {
+		case *SimpleType:
+			declared = v.Name
+		case *ComplexType:
+			declared = v.Name
+		case *Element:
+			declared = v.Name
+		case *Attribute:
+			declared = v.Name
+		case *Group:
+			declared = v.Name
+		case *AttributeGroup:
+			declared = v.Name
+		}
+		if declared == name {
+			return true
+		}
+	}
+	return false
+}
+
 func getNSPrefix(str string) (ns string) {
 	split := strings.Split(str, ":")
 	if len(split) == 2 {
-- 
2.43.0


From ec3001d969e35acf98ed8bf043e13da7f3d862cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 19/43] fix: keep documentation inside comments whatever
 characters it has

---
 utils.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/utils.go b/utils.go
index 67b1979..518f800 100644
--- a/utils.go
+++ b/utils.go
@@ -27,11 +27,12 @@ import (
 )
 
 var (
-	copyright      = "// Code generated by xgen. DO NOT EDIT."
-	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
-	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
-	fieldNameCount map[string]int
-	generatorMutex sync.Mutex // guards fieldNameCount
+	copyright        = "// Code generated by xgen. DO NOT EDIT."
+	matchFirstCap    = regexp.MustCompile("([A-Z])([A-Z][a-z])")
+	matchAllCap      = regexp.MustCompile("([a-z0-9])([A-Z])")
+	continuedComment = regexp.MustCompile(`(\\|\?\?/) *\r\n`)
+	fieldNameCount   map[string]int
+	generatorMutex   sync.Mutex // guards fieldNameCount
 )
 
 // ToSnakeCase converts the provided string to snake_case.
@@ -322,12 +323,25 @@ func fetchSchema(URL string) ([]byte, error) {
 	return body, err
 }
 
+// genFieldComment generates line comments with the documentation of a field,
+// which can't end the comment or be taken for anything else than a comment in
+// any of the languages.
 func genFieldComment(name, doc, prefix string) string {
-	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "")
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
-	return fmt.Sprintf("\r\n%s %s is %s\r\n", prefix, name, docReplacer.Replace(doc))
+	doc = strings.Map(func(r rune) rune {
+		if r == '\t' || r == '\ufeff' || r >= '\u202a' && r <= '\u202e' || r >= '\u2066' && r <= '\u2069' {
+			return -1
+		}
+		return r
+	}, doc)
+	newLine := fmt.Sprintf("\r\n%s ", prefix)
+	doc = strings.NewReplacer("\r\n", newLine, "\n", newLine, "\r", newLine, "\u0085", newLine,
+		"\u2028", newLine, "\u2029", newLine, "\\u", "\\ u").Replace(doc)
+	// A backslash at the end of a line continues the comment in C
+	doc = continuedComment.ReplaceAllString(doc+"\r\n", "$1.\r\n")
+	return fmt.Sprintf("\r\n%s %s is %s", prefix, name, doc)
 }
 
 type kvPair struct {
-- 
2.43.0


From 1735e2ce28d3bb3ca8303b21a31526b50d6f39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 20/43] fix: write the documentation of every kind of component

---
 genC.go    | 2 +-
 genJava.go | 9 ++++++---
 genRust.go | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index c8f9490..3f94dd9 100644
--- a/genC.go
+++ b/genC.go
@@ -260,7 +260,7 @@ func (gen *CodeGenerator) CElement(v *Element) {
 			plural = "[]"
 		}
 		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
-		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
+		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(genCFieldName(v.Name, false), v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
 
diff --git a/genJava.go b/genJava.go
index 23c7e03..b12448f 100644
--- a/genJava.go
+++ b/genJava.go
@@ -107,7 +107,8 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
 			content := fmt.Sprintf("\tprotected List<%s> %s;\n", fieldType, genJavaFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genJavaFieldName(v.Name, true)
+			gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 			return
 		}
 	}
@@ -260,7 +261,8 @@ func (gen *CodeGenerator) JavaElement(v *Element) {
 		}
 		content := fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(v.Name, false))
 		gen.StructAST[v.Name] = content
-		gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlElement(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+		fieldName := genJavaFieldName(v.Name, true)
+		gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlElement(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 	}
 }
 
@@ -273,6 +275,7 @@ func (gen *CodeGenerator) JavaAttribute(v *Attribute) {
 		}
 		content := fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(v.Name, false))
 		gen.StructAST[v.Name] = content
-		gen.Field += fmt.Sprintf("\n@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", v.Name, genJavaFieldName(v.Name, true), gen.StructAST[v.Name])
+		fieldName := genJavaFieldName(v.Name, true)
+		gen.Field += fmt.Sprintf("%s@XmlAccessorType(XmlAccessType.FIELD)\n@XmlAttribute(required = true, name = \"%s\")\npublic class %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), v.Name, fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genRust.go b/genRust.go
index d98a398..59404fe 100644
--- a/genRust.go
+++ b/genRust.go
@@ -198,7 +198,8 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
-			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
+			fieldName := genRustStructName(v.Name, true)
+			gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 		}
 		return
 	}
-- 
2.43.0


From d0ac68fe0d645bf866d42ea3aa053af522bafe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 21/43] fix: write enumerations of any values as valid
 TypeScript

---
 genTypeScript.go | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index e719d54..fb65cc0 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -25,6 +26,14 @@ var typeScriptBuildInType = map[string]bool{
 	"Uint8Array": true,
 }
 
+var (
+	typeScriptIdentifier = regexp.MustCompile(`^[A-Za-z_$][0-9A-Za-z_$]*$`)
+	// Names which TypeScript refuses as the name of a member of an enumeration
+	typeScriptNumericName = regexp.MustCompile(`^[-+.]?[0-9]|^-?Infinity$|^NaN$`)
+	// Leading zeros would turn a number into an octal one
+	typeScriptNumber = regexp.MustCompile(`^([-+]?)0*([0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?|\.[0-9]+(?:[eE][-+]?[0-9]+)?)$`)
+)
+
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
@@ -86,6 +95,28 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	return
 }
 
+// genTypeScriptString generates a string literal with the given value.
+func genTypeScriptString(value string) string {
+	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r",
+		"\u2028", "\\u2028", "\u2029", "\\u2029").Replace(value) + "'"
+}
+
+// genTypeScriptNumber generates a number literal for a value of the numeric
+// types in XSD.
+func genTypeScriptNumber(value string) (number string, ok bool) {
+	switch value {
+	case "INF", "-INF":
+		return strings.Replace(value, "INF", "Infinity", 1), true
+	case "NaN":
+		return value, true
+	}
+	match := typeScriptNumber.FindStringSubmatch(value)
+	if match == nil {
+		return "", false
+	}
+	return match[1] + match[2], true
+}
+
 // TypeScriptSimpleType generates code for simple type XML schema in TypeScript language
 // syntax.
 func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
@@ -123,14 +154,17 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 		var content string
 		baseType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
 		for _, enum := range v.Restriction.Enum {
-			switch baseType {
-			case "string":
-				content += fmt.Sprintf("\t%s = '%s',\n", enum, enum)
-			case "number":
-				content += fmt.Sprintf("\tEnum%s = %s,\n", enum, enum)
-			default:
-				content += fmt.Sprintf("\tEnum%s = '%s',\n", enum, enum)
+			name, value := enum, genTypeScriptString(enum)
+			if baseType != "string" || typeScriptNumericName.MatchString(enum) {
+				name = "Enum" + enum
+			}
+			if number, ok := genTypeScriptNumber(enum); ok && baseType == "number" {
+				value = number
+			}
+			if !typeScriptIdentifier.MatchString(name) {
+				name = genTypeScriptString(name)
 			}
+			content += fmt.Sprintf("\t%s = %s,\n", name, value)
 		}
 		fieldName := genTypeScriptFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%sexport enum %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, content)
-- 
2.43.0


From 6eeb210c298d58e6bc9e57d0250d49b8c26b0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 22/43] fix: import QName in Java files that refer to it

---
 genJava.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/genJava.go b/genJava.go
index b12448f..96cc470 100644
--- a/genJava.go
+++ b/genJava.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -29,6 +30,9 @@ var javaBuildInType = map[string]bool{
 	"Long":         true,
 }
 
+// javaQName matches the declaration of members of the type QName
+var javaQName = regexp.MustCompile(`(?m)^\tprotected (List<)?QName>? `)
+
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
@@ -60,6 +64,9 @@ import javax.xml.bind.annotation.XmlElement;
 import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
+	if javaQName.MatchString(gen.Field) {
+		importPackage += "\nimport javax.xml.namespace.QName;"
+	}
 
 	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	return err
-- 
2.43.0


From 307ab1c8fe0a38e259a4187990dc0e4d1c3ada7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 23/43] fix: declare an element with the name of its type once

---
 genC.go          | 6 ++++++
 genGo.go         | 6 ++++++
 genJava.go       | 6 ++++++
 genRust.go       | 6 ++++++
 genTypeScript.go | 6 ++++++
 utils.go         | 4 ++--
 6 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/genC.go b/genC.go
index 3f94dd9..d973d28 100644
--- a/genC.go
+++ b/genC.go
@@ -253,6 +253,9 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 
 // CElement generates code for element XML schema in C language syntax.
 func (gen *CodeGenerator) CElement(v *Element) {
+	if v.Name == trimNSPrefix(v.Type) && !cBuildInType[v.Type] {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural, fieldType string
 		var ok bool
@@ -266,6 +269,9 @@ func (gen *CodeGenerator) CElement(v *Element) {
 
 // CAttribute generates code for attribute XML schema in C language syntax.
 func (gen *CodeGenerator) CAttribute(v *Attribute) {
+	if v.Name == trimNSPrefix(v.Type) && !cBuildInType[v.Type] {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural, fieldType string
 		var ok bool
diff --git a/genGo.go b/genGo.go
index 11747cd..f23c61e 100644
--- a/genGo.go
+++ b/genGo.go
@@ -335,6 +335,9 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 
 // GoElement generates code for element XML schema in Go language syntax.
 func (gen *CodeGenerator) GoElement(v *Element) {
+	if v.Name == trimNSPrefix(v.Type) && !isGoBuiltInType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural string
 		if v.Plural {
@@ -349,6 +352,9 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 
 // GoAttribute generates code for attribute XML schema in Go language syntax.
 func (gen *CodeGenerator) GoAttribute(v *Attribute) {
+	if v.Name == trimNSPrefix(v.Type) && !isGoBuiltInType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural string
 		if v.Plural {
diff --git a/genJava.go b/genJava.go
index 96cc470..e7ad197 100644
--- a/genJava.go
+++ b/genJava.go
@@ -261,6 +261,9 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 
 // JavaElement generates code for element XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaElement(v *Element) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInJavaType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		if v.Plural {
@@ -275,6 +278,9 @@ func (gen *CodeGenerator) JavaElement(v *Element) {
 
 // JavaAttribute generates code for attribute XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaAttribute(v *Attribute) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInJavaType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		if v.Plural {
diff --git a/genRust.go b/genRust.go
index 59404fe..7a60f1a 100644
--- a/genRust.go
+++ b/genRust.go
@@ -325,6 +325,9 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 
 // RustElement generates code for element XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustElement(v *Element) {
+	if v.Name == trimNSPrefix(v.Type) && !isRustBuiltInType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		fieldName := genRustFieldName(v.Name)
@@ -339,6 +342,9 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 
 // RustAttribute generates code for attribute XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustAttribute(v *Attribute) {
+	if v.Name == trimNSPrefix(v.Type) && !isRustBuiltInType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		fieldName := genRustFieldName(v.Name)
diff --git a/genTypeScript.go b/genTypeScript.go
index fb65cc0..0ceb33d 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -273,6 +273,9 @@ func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 
 // TypeScriptElement generates code for element XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptElement(v *Element) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInTypeScriptType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		gen.StructAST[v.Name] = fmt.Sprintf(" %s;\n", genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), v.Plural))
 		fieldName := genTypeScriptFieldName(v.Name, true)
@@ -282,6 +285,9 @@ func (gen *CodeGenerator) TypeScriptElement(v *Element) {
 
 // TypeScriptAttribute generates code for attribute XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptAttribute(v *Attribute) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInTypeScriptType(v.Type) {
+		return // declared by its type
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		gen.StructAST[v.Name] = fmt.Sprintf(" %s;\n", genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), v.Plural))
 		fieldName := genTypeScriptFieldName(v.Name, true)
diff --git a/utils.go b/utils.go
index 518f800..0bab840 100644
--- a/utils.go
+++ b/utils.go
@@ -174,11 +174,11 @@ func getDirectBase(name string, XSDSchema []interface{}) string {
 				return v.Base
 			}
 		case *Attribute:
-			if v.Name == name {
+			if v.Name == name && trimNSPrefix(v.Type) != name {
 				return v.Type
 			}
 		case *Element:
-			if v.Name == name {
+			if v.Name == name && trimNSPrefix(v.Type) != name {
 				return v.Type
 			}
 		}
-- 
2.43.0


From 54603645ddfbf0dd524c2179768310e6a98e6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 24/43] fix: ignore white space around names in attributes

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 333c8ea..23d845a 100644
--- a/parser.go
+++ b/parser.go
@@ -224,7 +224,8 @@ func (opt *Options) outputPath() string {
 // ignore tells if the given start element has no meaning for the components of
 // the schema, which is the case for elements of other namespaces, for
 // documentation and application information and for everything inside of them.
-// Attributes of other namespaces are removed from the element.
+// Attributes of other namespaces are removed from the element, the white space
+// around names is removed from the rest.
 func (opt *Options) ignore(element *xml.StartElement) bool {
 	if opt.ignored > 0 {
 		opt.ignored++
@@ -247,6 +248,10 @@ func (opt *Options) ignore(element *xml.StartElement) bool {
 	var attrs []xml.Attr
 	for _, attr := range element.Attr {
 		if attr.Name.Space == "" || element.Name.Local == "schema" {
+			switch attr.Name.Local {
+			case "name", "ref", "type", "base", "itemType", "use":
+				attr.Value = strings.TrimSpace(attr.Value)
+			}
 			attrs = append(attrs, attr)
 		}
 	}
-- 
2.43.0


From 182cc53322e3c52b98cb849c9e6f159303ef985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 25/43] fix: report directories in place of schemas as errors

---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index 23d845a..5e6e966 100644
--- a/parser.go
+++ b/parser.go
@@ -302,6 +302,10 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		return
 	}
 	if fi.IsDir() {
+		if schemaLocation != "" {
+			err = fmt.Errorf("schema location %s is a directory", schemaLocation)
+			return
+		}
 		// extract type of value from include schema.
 		if len(opt.IncludeMap) == 0 {
 			return
@@ -390,6 +394,9 @@ func (opt *Options) extract(file string) (parser *Options, err error) {
 	if parser, ok := opt.extracts[file]; ok {
 		return parser, nil
 	}
+	if fi, err := os.Stat(file); err == nil && fi.IsDir() {
+		return nil, fmt.Errorf("schema location %s is a directory", file)
+	}
 	parser = NewParser(&Options{
 		FilePath:  file,
 		Extract:   true,
-- 
2.43.0


From 2bc8c98073baf2245f8ff9cc4d1fa4662a17e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 26/43] fix: read schemas in UTF-16

---
 parser.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5e6e966..e8b1661 100644
--- a/parser.go
+++ b/parser.go
@@ -9,6 +9,7 @@
 package xgen
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/xml"
 	"fmt"
@@ -134,8 +135,10 @@ func (opt *Options) Parse() (err error) {
 	opt.documentation = false
 	opt.docTargets = nil
 
-	decoder := xml.NewDecoder(xmlFile)
-	decoder.CharsetReader = charset.NewReaderLabel
+	var decoder *xml.Decoder
+	if decoder, err = newDecoder(xmlFile); err != nil {
+		return
+	}
 	for {
 		var token xml.Token
 		if token, err = decoder.Token(); err == io.EOF {
@@ -200,6 +203,37 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// newDecoder returns a decoder for an XML document in any encoding. Documents
+// in UTF-16 start with a byte order mark, which takes precedence over the
+// encoding that they declare.
+func newDecoder(r io.Reader) (*xml.Decoder, error) {
+	reader := bufio.NewReader(r)
+	mark, err := reader.Peek(2)
+	if err != nil && err != io.EOF {
+		return nil, err
+	}
+	encoding := ""
+	if bytes.Equal(mark, []byte{0xFE, 0xFF}) {
+		encoding = "utf-16be"
+	} else if bytes.Equal(mark, []byte{0xFF, 0xFE}) {
+		encoding = "utf-16le"
+	}
+	if encoding == "" {
+		decoder := xml.NewDecoder(reader)
+		decoder.CharsetReader = charset.NewReaderLabel
+		return decoder, nil
+	}
+	utf8, err := charset.NewReaderLabel(encoding, reader)
+	if err != nil {
+		return nil, err
+	}
+	decoder := xml.NewDecoder(utf8)
+	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) {
+		return input, nil
+	}
+	return decoder, nil
+}
+
 // outputPath returns where the output for the schema goes, without extension:
 // the place below the output directory that the schema has below the input
 // directory. Schemas outside of the input directory stay below the output
-- 
2.43.0


From eec82507d7c92f3b2eba712a8a6ca3d9fb12c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 27/43] fix: order union members independently of the order of
 the schema

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 0bab840..102ebd7 100644
--- a/utils.go
+++ b/utils.go
@@ -355,7 +355,7 @@ type kvPairList []kvPair
 func (k kvPairList) Len() int { return len(k) }
 
 func (k kvPairList) Less(i, j int) bool {
-	return k[i].value < k[j].value || (k[i].value == k[j].value && strings.Compare(k[i].key, k[j].key) > 0)
+	return k[i].key < k[j].key
 }
 
 func (k kvPairList) Swap(i, j int) { k[i], k[j] = k[j], k[i] }
-- 
2.43.0


From 3541bb45c561f9af71152932749e27b738df4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 28/43] fix: derive output paths from absolute paths

---
 parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index e8b1661..da74960 100644
--- a/parser.go
+++ b/parser.go
@@ -239,16 +239,17 @@ func newDecoder(r io.Reader) (*xml.Decoder, error) {
 // directory. Schemas outside of the input directory stay below the output
 // directory as well.
 func (opt *Options) outputPath() string {
-	path, err := filepath.Rel(opt.InputDir, opt.FilePath)
-	if err != nil && opt.InputDir != "" {
-		// One is an absolute path and the other isn't
-		var input, file string
-		if input, err = filepath.Abs(opt.InputDir); err == nil {
-			if file, err = filepath.Abs(opt.FilePath); err == nil {
-				path, err = filepath.Rel(input, file)
-			}
+	input, file := opt.InputDir, opt.FilePath
+	if input != "" {
+		// They may be spelled in different ways
+		if path, err := filepath.Abs(input); err == nil {
+			input = path
+		}
+		if path, err := filepath.Abs(file); err == nil {
+			file = path
 		}
 	}
+	path, err := filepath.Rel(input, file)
 	if err != nil {
 		path = opt.FilePath
 	}
-- 
2.43.0


From 8de93dfa6f35db7e60282f8cb6be805b37df299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:22 +0000
Subject: [PATCH 29/43] fix: list the files of a directory that is a symbolic
 link

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 102ebd7..b6d64eb 100644
--- a/utils.go
+++ b/utils.go
@@ -51,7 +51,8 @@ func GetFileList(path string) (files []string, err error) {
 		return
 	}
 	if fi.IsDir() {
-		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+		// The separator makes it follow a link to the directory
+		err = filepath.Walk(path+string(filepath.Separator), func(fp string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 8c5d497e6e7983f9d36e7add37c49e67d3505c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 30/43] fix: refer to a type with the name interface

---
 genGo.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index f23c61e..799341a 100644
--- a/genGo.go
+++ b/genGo.go
@@ -47,7 +47,6 @@ var goBuildinType = map[string]bool{
 	"int16":         true,
 	"int32":         true,
 	"int64":         true,
-	"interface":     true,
 	"[]interface{}": true,
 	"string":        true,
 	"[]string":      true,
-- 
2.43.0


From b6bbedac36ee1df63eb82cd309d313ce25269711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 31/43] fix: declare TypeScript classes after their bases

---
 genTypeScript.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 0ceb33d..9aee758 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -40,7 +40,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	generatorMutex.Lock()
 	defer generatorMutex.Unlock()
 	fieldNameCount = make(map[string]int)
-	for _, ele := range gen.ProtoTree {
+	for _, ele := range typeScriptBasesFirst(gen.ProtoTree) {
 		if ele == nil {
 			continue
 		}
@@ -58,6 +58,38 @@ func (gen *CodeGenerator) GenTypeScript() error {
 
 }
 
+// typeScriptBasesFirst returns the components with the base of each complex
+// type before that type, since a class can't extend a class which is declared
+// after it.
+func typeScriptBasesFirst(protoTree []interface{}) (ordered []interface{}) {
+	complexTypes := make(map[string]*ComplexType)
+	for _, ele := range protoTree {
+		if v, ok := ele.(*ComplexType); ok {
+			if _, ok = complexTypes[v.Name]; !ok {
+				complexTypes[v.Name] = v
+			}
+		}
+	}
+	added := make(map[*ComplexType]bool)
+	var add func(ele interface{})
+	add = func(ele interface{}) {
+		if v, ok := ele.(*ComplexType); ok {
+			if added[v] {
+				return
+			}
+			added[v] = true
+			if base, ok := complexTypes[trimNSPrefix(v.Base)]; ok {
+				add(base)
+			}
+		}
+		ordered = append(ordered, ele)
+	}
+	for _, ele := range protoTree {
+		add(ele)
+	}
+	return
+}
+
 func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 	for _, str := range strings.Split(name, ":") {
 		fieldName += MakeFirstUpperCase(str)
-- 
2.43.0


From fe76837630188913b9218b89776b278a8d86f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:57 +0000
Subject: [PATCH 32/43] fix: refer to a type with the name enum in C

---
 genC.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/genC.go b/genC.go
index d973d28..61f8724 100644
--- a/genC.go
+++ b/genC.go
@@ -31,7 +31,6 @@ var cBuildInType = map[string]bool{
 	"long":           true,
 	"unsigned long":  true,
 	"void":           true,
-	"enum":           true,
 }
 
 // GenC generates C programming language source code for XML schema definition
-- 
2.43.0


From 6673236715f295aa0462efd496eb7c6d1badc9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:41 +0000
Subject: [PATCH 33/43] fix: read and write attributes of the XML namespace in
 Go

---
 genGo.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/genGo.go b/genGo.go
index 799341a..0551ac3 100644
--- a/genGo.go
+++ b/genGo.go
@@ -138,6 +138,16 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// genGoAttributeName generates the name of an attribute in a field tag. The
+// package encoding/xml knows the attributes with the prefix xml by their
+// namespace.
+func genGoAttributeName(name string) string {
+	if strings.HasPrefix(name, "xml:") {
+		return "http://www.w3.org/XML/1998/namespace " + strings.TrimPrefix(name, "xml:")
+	}
+	return name
+}
+
 func genGoFieldType(name string) string {
 	if _, ok := goBuildinType[name]; ok {
 		return name
@@ -228,7 +238,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, genGoAttributeName(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
@@ -324,7 +334,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), genGoAttributeName(attribute.Name), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From ce960fda77b1734250c5b1b3af17a2a393ea52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:17 +0000
Subject: [PATCH 34/43] fix: keep anonymous list types of attributes and of
 referenced components

---
 genC.go    |  4 ++--
 genGo.go   | 12 ++++++++++--
 genJava.go |  6 ++++++
 genRust.go | 11 +++++++++--
 utils.go   |  4 ++--
 5 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/genC.go b/genC.go
index 61f8724..8876747 100644
--- a/genC.go
+++ b/genC.go
@@ -164,7 +164,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			}
 			var plural, fieldType string
 			var ok bool
-			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok {
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok || attribute.Plural {
 				plural = "[]"
 			}
 			content += fmt.Sprintf("\t%s %sAttr%s; // attr%s\n", fieldType, genCFieldName(attribute.Name, false), plural, optional)
@@ -238,7 +238,7 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `, optional`
 			}
-			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok {
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok || attribute.Plural {
 				plural = "[]"
 			}
 			content += fmt.Sprintf("\t%s %sAttr%s; // attr%s\n", fieldType, genCFieldName(attribute.Name, false), plural, optional)
diff --git a/genGo.go b/genGo.go
index 0551ac3..740b9d9 100644
--- a/genGo.go
+++ b/genGo.go
@@ -238,7 +238,11 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, genGoAttributeName(attribute.Name), optional)
+			var plural string
+			if attribute.Plural {
+				plural = "[]"
+			}
+			content += fmt.Sprintf("\t%sAttr\t%s%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), plural, fieldType, genGoAttributeName(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
@@ -334,7 +338,11 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), genGoAttributeName(attribute.Name), optional)
+			var plural string
+			if attribute.Plural {
+				plural = "[]"
+			}
+			content += fmt.Sprintf("\t%sAttr\t%s%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), genGoAttributeName(attribute.Name), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genJava.go b/genJava.go
index e7ad197..7704245 100644
--- a/genJava.go
+++ b/genJava.go
@@ -165,6 +165,9 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
+			if attribute.Plural {
+				fieldType = fmt.Sprintf("List<%s>", fieldType)
+			}
 			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		for _, group := range v.Groups {
@@ -250,6 +253,9 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
+			if attribute.Plural {
+				fieldType = fmt.Sprintf("List<%s>", fieldType)
+			}
 			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
diff --git a/genRust.go b/genRust.go
index 7a60f1a..18beb4f 100644
--- a/genRust.go
+++ b/genRust.go
@@ -223,6 +223,9 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
+			if attribute.Plural {
+				fieldType = fmt.Sprintf("Vec<%s>", fieldType)
+			}
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
 			} else {
@@ -311,10 +314,14 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
+			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
+			if attribute.Plural {
+				fieldType = fmt.Sprintf("Vec<%s>", fieldType)
+			}
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
 			}
 		}
 		gen.StructAST[v.Name] = content
diff --git a/utils.go b/utils.go
index b6d64eb..61daa37 100644
--- a/utils.go
+++ b/utils.go
@@ -175,11 +175,11 @@ func getDirectBase(name string, XSDSchema []interface{}) string {
 				return v.Base
 			}
 		case *Attribute:
-			if v.Name == name && trimNSPrefix(v.Type) != name {
+			if !v.Plural && v.Name == name && trimNSPrefix(v.Type) != name {
 				return v.Type
 			}
 		case *Element:
-			if v.Name == name && trimNSPrefix(v.Type) != name {
+			if !v.Plural && v.Name == name && trimNSPrefix(v.Type) != name {
 				return v.Type
 			}
 		}
-- 
2.43.0


From 9f44fe54756f1c04f127692c8b9a881be83fd035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 35/43] fix: name Rust structures of elements and attributes as
 their references do

---
 genRust.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/genRust.go b/genRust.go
index 18beb4f..5dd5f3c 100644
--- a/genRust.go
+++ b/genRust.go
@@ -343,7 +343,8 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
 
@@ -360,6 +361,7 @@ func (gen *CodeGenerator) RustAttribute(v *Attribute) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
-		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
+		structName := genRustStructName(v.Name, true)
+		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(structName, v.Doc, "//"), structName, gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From 4c0c9b8db885ca90aa25dcfb17d0c556e63c0619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:32 +0000
Subject: [PATCH 36/43] fix: keep words of documentation apart that a tab
 separates

---
 utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 61daa37..2248934 100644
--- a/utils.go
+++ b/utils.go
@@ -30,6 +30,7 @@ var (
 	copyright        = "// Code generated by xgen. DO NOT EDIT."
 	matchFirstCap    = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap      = regexp.MustCompile("([a-z0-9])([A-Z])")
+	indentedComment  = regexp.MustCompile(`(?m)^\t+|\t+$`)
 	continuedComment = regexp.MustCompile(`(\\|\?\?/) *\r\n`)
 	fieldNameCount   map[string]int
 	generatorMutex   sync.Mutex // guards fieldNameCount
@@ -332,11 +333,13 @@ func genFieldComment(name, doc, prefix string) string {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
 	doc = strings.Map(func(r rune) rune {
-		if r == '\t' || r == '\ufeff' || r >= '\u202a' && r <= '\u202e' || r >= '\u2066' && r <= '\u2069' {
+		if r == '\ufeff' || r >= '\u202a' && r <= '\u202e' || r >= '\u2066' && r <= '\u2069' {
 			return -1
 		}
 		return r
 	}, doc)
+	// Tabs indent the lines, or separate words
+	doc = strings.ReplaceAll(indentedComment.ReplaceAllString(doc, ""), "\t", " ")
 	newLine := fmt.Sprintf("\r\n%s ", prefix)
 	doc = strings.NewReplacer("\r\n", newLine, "\n", newLine, "\r", newLine, "\u0085", newLine,
 		"\u2028", newLine, "\u2029", newLine, "\\u", "\\ u").Replace(doc)
-- 
2.43.0


From 8844a23bfda9a61ef3f1c000f5563e6094b3eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:33 +0000
Subject: [PATCH 37/43] fix: declare an element with the name of its type once,
 whatever the type and the order

---
 genC.go          |  4 ++--
 genGo.go         |  4 ++--
 genJava.go       |  4 ++--
 genRust.go       |  4 ++--
 genTypeScript.go |  4 ++--
 utils.go         | 18 ++++++++++++++++++
 6 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/genC.go b/genC.go
index 8876747..37f0a47 100644
--- a/genC.go
+++ b/genC.go
@@ -252,7 +252,7 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 
 // CElement generates code for element XML schema in C language syntax.
 func (gen *CodeGenerator) CElement(v *Element) {
-	if v.Name == trimNSPrefix(v.Type) && !cBuildInType[v.Type] {
+	if v.Name == trimNSPrefix(v.Type) && !cBuildInType[v.Type] || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
@@ -268,7 +268,7 @@ func (gen *CodeGenerator) CElement(v *Element) {
 
 // CAttribute generates code for attribute XML schema in C language syntax.
 func (gen *CodeGenerator) CAttribute(v *Attribute) {
-	if v.Name == trimNSPrefix(v.Type) && !cBuildInType[v.Type] {
+	if v.Name == trimNSPrefix(v.Type) && !cBuildInType[v.Type] || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
diff --git a/genGo.go b/genGo.go
index 740b9d9..570b1b9 100644
--- a/genGo.go
+++ b/genGo.go
@@ -352,7 +352,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 
 // GoElement generates code for element XML schema in Go language syntax.
 func (gen *CodeGenerator) GoElement(v *Element) {
-	if v.Name == trimNSPrefix(v.Type) && !isGoBuiltInType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isGoBuiltInType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
@@ -369,7 +369,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 
 // GoAttribute generates code for attribute XML schema in Go language syntax.
 func (gen *CodeGenerator) GoAttribute(v *Attribute) {
-	if v.Name == trimNSPrefix(v.Type) && !isGoBuiltInType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isGoBuiltInType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
diff --git a/genJava.go b/genJava.go
index 7704245..2c0da7c 100644
--- a/genJava.go
+++ b/genJava.go
@@ -267,7 +267,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 
 // JavaElement generates code for element XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaElement(v *Element) {
-	if v.Name == trimNSPrefix(v.Type) && !isBuiltInJavaType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInJavaType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
@@ -284,7 +284,7 @@ func (gen *CodeGenerator) JavaElement(v *Element) {
 
 // JavaAttribute generates code for attribute XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaAttribute(v *Attribute) {
-	if v.Name == trimNSPrefix(v.Type) && !isBuiltInJavaType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInJavaType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
diff --git a/genRust.go b/genRust.go
index 5dd5f3c..5fad641 100644
--- a/genRust.go
+++ b/genRust.go
@@ -332,7 +332,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 
 // RustElement generates code for element XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustElement(v *Element) {
-	if v.Name == trimNSPrefix(v.Type) && !isRustBuiltInType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isRustBuiltInType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
@@ -350,7 +350,7 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 
 // RustAttribute generates code for attribute XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustAttribute(v *Attribute) {
-	if v.Name == trimNSPrefix(v.Type) && !isRustBuiltInType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isRustBuiltInType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
diff --git a/genTypeScript.go b/genTypeScript.go
index 9aee758..b444a3e 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -305,7 +305,7 @@ func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 
 // TypeScriptElement generates code for element XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptElement(v *Element) {
-	if v.Name == trimNSPrefix(v.Type) && !isBuiltInTypeScriptType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInTypeScriptType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
@@ -317,7 +317,7 @@ func (gen *CodeGenerator) TypeScriptElement(v *Element) {
 
 // TypeScriptAttribute generates code for attribute XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptAttribute(v *Attribute) {
-	if v.Name == trimNSPrefix(v.Type) && !isBuiltInTypeScriptType(v.Type) {
+	if v.Name == trimNSPrefix(v.Type) && !isBuiltInTypeScriptType(v.Type) || gen.declaredAsType(v.Name) {
 		return // declared by its type
 	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
diff --git a/utils.go b/utils.go
index 2248934..b0659ad 100644
--- a/utils.go
+++ b/utils.go
@@ -348,6 +348,24 @@ func genFieldComment(name, doc, prefix string) string {
 	return fmt.Sprintf("\r\n%s %s is %s", prefix, name, doc)
 }
 
+// declaredAsType returns whether a type with the given name is declared in the
+// XSD file; it is the declaration of elements and attributes of that name, too.
+func (gen *CodeGenerator) declaredAsType(name string) bool {
+	for _, ele := range gen.ProtoTree {
+		switch v := ele.(type) {
+		case *SimpleType:
+			if v.Name == name {
+				return true
+			}
+		case *ComplexType:
+			if v.Name == name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 type kvPair struct {
 	key   string
 	value string
-- 
2.43.0


From 2775f8854312c00d687e9b9d904a5c0a0df3f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:36 +0000
Subject: [PATCH 38/43] fix: give declarations of elements and C typedefs whose
 names clash different names

---
 genC.go  | 13 +++++++------
 genGo.go |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/genC.go b/genC.go
index 37f0a47..21b75b0 100644
--- a/genC.go
+++ b/genC.go
@@ -103,9 +103,9 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
-			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
+			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), fieldName)
+			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 			return
 		}
@@ -141,8 +141,8 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))); ok {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
@@ -261,8 +261,9 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
-		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(genCFieldName(v.Name, false), v.Doc, "//"), gen.StructAST[v.Name])
+		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
+		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
 
@@ -277,8 +278,8 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
 		fieldName := genCFieldName(v.Name, true)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, fieldName, plural)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
 }
diff --git a/genGo.go b/genGo.go
index 570b1b9..da645fa 100644
--- a/genGo.go
+++ b/genGo.go
@@ -362,7 +362,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		}
 		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
-		fieldName := genGoFieldName(v.Name, false)
+		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
-- 
2.43.0


From 7c8f103f6847964d275b63ab014ed9a74217d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:43 +0000
Subject: [PATCH 39/43] fix: ignore white space around the namespace and the
 location of imported and included schemas

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index da74960..d145bda 100644
--- a/parser.go
+++ b/parser.go
@@ -284,7 +284,7 @@ func (opt *Options) ignore(element *xml.StartElement) bool {
 	for _, attr := range element.Attr {
 		if attr.Name.Space == "" || element.Name.Local == "schema" {
 			switch attr.Name.Local {
-			case "name", "ref", "type", "base", "itemType", "use":
+			case "name", "ref", "type", "base", "itemType", "use", "namespace", "schemaLocation":
 				attr.Value = strings.TrimSpace(attr.Value)
 			}
 			attrs = append(attrs, attr)
-- 
2.43.0


From 2ed5a310799e4b88a7a3ff183803676f1ccf2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:32 +0000
Subject: [PATCH 40/43] fix: know the prefixes that are declared inside of the
 schema

---
 parser.go |  5 +++++
 schema.go | 26 ++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/parser.go b/parser.go
index d145bda..dc65f00 100644
--- a/parser.go
+++ b/parser.go
@@ -62,6 +62,8 @@ type Options struct {
 	docTarget     *string      // documentation of the component just opened
 	docTargets    []*string    // documentation of the open components
 
+	outerNS []map[string]string // namespace declarations around the open elements
+
 	extracts map[string]*Options // schemas that have been parsed to resolve types
 }
 
@@ -134,6 +136,7 @@ func (opt *Options) Parse() (err error) {
 	opt.ignored = 0
 	opt.documentation = false
 	opt.docTargets = nil
+	opt.outerNS = nil
 
 	var decoder *xml.Decoder
 	if decoder, err = newDecoder(xmlFile); err != nil {
@@ -154,6 +157,7 @@ func (opt *Options) Parse() (err error) {
 			if opt.ignore(&element) {
 				break
 			}
+			opt.enterNS(token.(xml.StartElement))
 			opt.InElement = element.Name.Local
 			opt.docTarget = nil
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
@@ -168,6 +172,7 @@ func (opt *Options) Parse() (err error) {
 				break
 			}
 			opt.docTargets = opt.docTargets[:len(opt.docTargets)-1]
+			opt.leaveNS()
 			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
diff --git a/schema.go b/schema.go
index 641f95e..e39b2a4 100644
--- a/schema.go
+++ b/schema.go
@@ -21,6 +21,32 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 	}
 }
 
+// enterNS makes the namespaces that an element declares known inside of it.
+// Those of the schema element are the ones of the whole schema.
+func (opt *Options) enterNS(element xml.StartElement) {
+	opt.outerNS = append(opt.outerNS, opt.LocalNameNSMap)
+	if element.Name.Local == "schema" {
+		return
+	}
+	for _, attr := range element.Attr {
+		if attr.Name.Space == "xmlns" || attr.Name.Space == "" && attr.Name.Local == "xmlns" {
+			outer := opt.LocalNameNSMap
+			opt.LocalNameNSMap = make(map[string]string)
+			for prefix, ns := range outer {
+				opt.LocalNameNSMap[prefix] = ns
+			}
+			opt.prepareLocalNameNSMap(element)
+			return
+		}
+	}
+}
+
+// leaveNS forgets the namespaces that the element which ends has declared.
+func (opt *Options) leaveNS() {
+	opt.LocalNameNSMap = opt.outerNS[len(opt.outerNS)-1]
+	opt.outerNS = opt.outerNS[:len(opt.outerNS)-1]
+}
+
 func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	var currentNS string
 	for _, ele := range element.Attr {
-- 
2.43.0


From ea2293b897743457c7dc74ba76fd917bd06bbff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:32 +0000
Subject: [PATCH 41/43] fix: resolve types in all the schemas that are imported
 for a namespace

---
 parser.go | 34 ++++++++++++++++++++++++----------
 schema.go |  7 ++++---
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/parser.go b/parser.go
index dc65f00..1807702 100644
--- a/parser.go
+++ b/parser.go
@@ -64,6 +64,8 @@ type Options struct {
 
 	outerNS []map[string]string // namespace declarations around the open elements
 
+	nsSchemaLocations map[string][]string // all the locations of imported namespaces
+
 	extracts map[string]*Options // schemas that have been parsed to resolve types
 }
 
@@ -137,6 +139,7 @@ func (opt *Options) Parse() (err error) {
 	opt.documentation = false
 	opt.docTargets = nil
 	opt.outerNS = nil
+	opt.nsSchemaLocations = make(map[string][]string)
 
 	var decoder *xml.Decoder
 	if decoder, err = newDecoder(xmlFile); err != nil {
@@ -354,7 +357,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		if parser, err = opt.extract(opt.FilePath); err != nil || isDeclared(valueType, parser.ProtoTree) {
 			return
 		}
-		return opt.getDependentType(valueType, opt.FilePath, nil)
+		return opt.getDependentType(valueType, []string{opt.FilePath}, nil)
 	}
 
 	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
@@ -380,19 +383,30 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		}
 		depXSDSchema = parser.ProtoTree
 	}
-	return opt.getDependentType(trimNSPrefix(value), xsdFile, depXSDSchema)
+	files := []string{xsdFile}
+	for _, location := range opt.nsSchemaLocations[opt.parseNS(value)] {
+		files = append(files, filepath.Join(opt.FileDir, location))
+	}
+	return opt.getDependentType(trimNSPrefix(value), files, depXSDSchema)
 }
 
 // getDependentType resolves the name of a type with the given components and
-// those of a schema file and all the schemas that it depends on. It fails if
+// those of schema files and all the schemas that they depend on. It fails if
 // the type isn't found and one of the schemas can't be read.
-func (opt *Options) getDependentType(name, file string, XSDSchema []interface{}) (valueType string, err error) {
-	dependencies, err := opt.dependencies(file, make(map[string]bool))
-	dependencies = append(append([]interface{}{}, XSDSchema...), dependencies...)
-	if isDeclared(name, dependencies) {
+func (opt *Options) getDependentType(name string, files []string, XSDSchema []interface{}) (valueType string, err error) {
+	XSDSchema = append([]interface{}{}, XSDSchema...)
+	visited := make(map[string]bool)
+	for _, file := range files {
+		dependencies, dependenciesErr := opt.dependencies(file, visited)
+		if err == nil {
+			err = dependenciesErr
+		}
+		XSDSchema = append(XSDSchema, dependencies...)
+	}
+	if isDeclared(name, XSDSchema) {
 		err = nil
 	}
-	return getBasefromSimpleType(name, dependencies), err
+	return getBasefromSimpleType(name, XSDSchema), err
 }
 
 // dependencies returns the components of a schema file and of all the schemas
@@ -411,8 +425,8 @@ func (opt *Options) dependencies(file string, visited map[string]bool) (XSDSchem
 	for include := range parser.IncludeMap {
 		locations = append(locations, include)
 	}
-	for _, schemaLocation := range parser.NSSchemaLocationMap {
-		locations = append(locations, schemaLocation)
+	for _, schemaLocations := range parser.nsSchemaLocations {
+		locations = append(locations, schemaLocations...)
 	}
 	sort.Strings(locations)
 	for _, location := range locations {
diff --git a/schema.go b/schema.go
index e39b2a4..ce2fb6e 100644
--- a/schema.go
+++ b/schema.go
@@ -56,9 +56,6 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	}
 	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
-			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
-				continue
-			}
 			if isValidURL(ele.Value) {
 				continue
 				// TODO: fetch remote schema
@@ -67,6 +64,10 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 				// 	continue
 				// }
 			}
+			opt.nsSchemaLocations[currentNS] = append(opt.nsSchemaLocations[currentNS], ele.Value)
+			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
+				continue
+			}
 			opt.NSSchemaLocationMap[currentNS] = ele.Value
 		}
 	}
-- 
2.43.0


From a7e3cfa5c2e06d8aa0b3c02e8598d91b6eb5121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:56 +0000
Subject: [PATCH 42/43] fix: find imported and included schemas at absolute and
 escaped locations

---
 parser.go |  6 +++---
 utils.go  | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 1807702..6709a82 100644
--- a/parser.go
+++ b/parser.go
@@ -338,7 +338,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if isValidURL(schemaLocation) {
 		return
 	}
-	xsdFile := filepath.Join(opt.FileDir, schemaLocation)
+	xsdFile := locateFile(opt.FileDir, schemaLocation)
 	var fi os.FileInfo
 	fi, err = os.Stat(xsdFile)
 	if err != nil {
@@ -385,7 +385,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	}
 	files := []string{xsdFile}
 	for _, location := range opt.nsSchemaLocations[opt.parseNS(value)] {
-		files = append(files, filepath.Join(opt.FileDir, location))
+		files = append(files, locateFile(opt.FileDir, location))
 	}
 	return opt.getDependentType(trimNSPrefix(value), files, depXSDSchema)
 }
@@ -433,7 +433,7 @@ func (opt *Options) dependencies(file string, visited map[string]bool) (XSDSchem
 		if isValidURL(location) {
 			continue
 		}
-		dependency, dependencyErr := opt.dependencies(filepath.Join(parser.FileDir, location), visited)
+		dependency, dependencyErr := opt.dependencies(locateFile(parser.FileDir, location), visited)
 		if err == nil {
 			err = dependencyErr
 		}
diff --git a/utils.go b/utils.go
index b0659ad..67dd1f6 100644
--- a/utils.go
+++ b/utils.go
@@ -306,6 +306,26 @@ func isValidURL(toTest string) bool {
 	return true
 }
 
+// locateFile returns the path of the schema file at a location, which is a
+// reference to a file by URI relative to the given directory. Characters of it
+// may be escaped.
+func locateFile(dir, location string) string {
+	join := func(location string) string {
+		location = strings.TrimPrefix(location, "file://")
+		if filepath.IsAbs(location) {
+			return filepath.Clean(location)
+		}
+		return filepath.Join(dir, location)
+	}
+	path := join(location)
+	if unescaped, err := url.PathUnescape(location); err == nil && unescaped != location {
+		if _, err = os.Stat(path); err != nil {
+			return join(unescaped)
+		}
+	}
+	return path
+}
+
 func fetchSchema(URL string) ([]byte, error) {
 	var body []byte
 	var client http.Client
-- 
2.43.0


From b7ae92bf32730d6eddf5c64d302e09ef240fe889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:30 +0000
Subject: [PATCH 43/43] fix: name the members of TypeScript enumerations
 without clashes

---
 genTypeScript.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genTypeScript.go b/genTypeScript.go
index b444a3e..1bd0a4f 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -185,11 +185,16 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if len(v.Restriction.Enum) > 0 {
 		var content string
 		baseType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		members := make(map[string]bool)
 		for _, enum := range v.Restriction.Enum {
 			name, value := enum, genTypeScriptString(enum)
 			if baseType != "string" || typeScriptNumericName.MatchString(enum) {
 				name = "Enum" + enum
 			}
+			for members[name] {
+				name = "Enum" + name
+			}
+			members[name] = true
 			if number, ok := genTypeScriptNumber(enum); ok && baseType == "number" {
 				value = number
 			}
-- 
2.43.0

