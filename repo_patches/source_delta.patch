From f3159a62f04272d04c4e0a6581eb7b86d3725335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 01/77] fix: keep the verbs of RBAC rules that coincide while
 merging

---
 pkg/rbac/parser.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..5982478 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -224,6 +224,17 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 	// NormalizeRules merge Rule with the same ruleKey and sort the Rules
 	NormalizeRules := func(rules []*Rule) []rbacv1.PolicyRule {
 		ruleMap := make(map[ruleKey]*Rule)
+		// addRule adds rule to ruleMap. Merging rules may yield the ruleKey of a Rule that's
+		// already there with other verbs, in which case that Rule has to keep its verbs, too.
+		addRule := func(rule *Rule) {
+			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				existing.addVerbs(rule.Verbs)
+				return
+			}
+			ruleMap[key] = rule
+		}
+
 		// all the Rules having the same ruleKey will be merged into the first Rule
 		for _, rule := range rules {
 			// fix the group name first, since letting people type "core" is nice
@@ -233,12 +244,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				}
 			}
 
-			key := rule.key()
-			if _, ok := ruleMap[key]; !ok {
-				ruleMap[key] = rule
-				continue
-			}
-			ruleMap[key].addVerbs(rule.Verbs)
+			addRule(rule)
 		}
 
 		// deduplicate resources
@@ -257,8 +263,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Resources = append(rule.Resources, mergeRule.Resources...)
 			}
 
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(rule)
 		}
 
 		// deduplicate groups
@@ -276,8 +281,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(rule)
 		}
 
 		// deduplicate URLs
@@ -295,8 +299,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(rule)
 		}
 
 		// sort the Rules in rules according to their ruleKeys
-- 
2.43.0


From ed767b403285abd89083073ab6832fce4ff8337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/77] fix: don't panic on fields of alias, interface or
 unsafe types

---
 pkg/crd/schema.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..7d0fd3d 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -267,7 +267,13 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	// This reproduces the behavior we had pre gotypesalias=1 (needed if this
 	// project is compiled with default settings and Go >= 1.23).
 	if aliasInfo, isAlias := typeInfo.(*types.Alias); isAlias {
-		typeInfo = aliasInfo.Rhs()
+		switch rhs := aliasInfo.Rhs().(type) {
+		case *types.Basic, *types.Named, *types.Alias:
+			typeInfo = rhs
+		default:
+			// An alias of an unnamed type (e.g. `type Names = []string`) is the only name
+			// that type has, so reference the alias itself.
+		}
 	}
 	if basicInfo, isBasic := typeInfo.(*types.Basic); isBasic {
 		typ, fmt, err := builtinToType(basicInfo, ctx.allowDangerousTypes)
@@ -295,7 +301,13 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	named, isNamed := typeInfo.(interface{ Obj() *types.TypeName })
+	if !isNamed || named.Obj().Pkg() == nil {
+		// predeclared types that aren't basic, like any and error
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %s", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
+	typeNameInfo := named.Obj()
 	pkg := typeNameInfo.Pkg()
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
@@ -315,7 +327,12 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	typeInfo, isNamed := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	if !isNamed {
+		// e.g. unsafe.Pointer
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %v.%s", named.X, named.Sel.Name), named))
+		return &apiext.JSONSchemaProps{}
+	}
 	typeNameInfo := typeInfo.Obj()
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
-- 
2.43.0


From eba316c7d11b7690b0980bcbd067a4c6134b5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 03/77] fix: accept aliases of string types as map keys

---
 pkg/crd/schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 7d0fd3d..506a7a5 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -377,6 +377,8 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 				return &apiext.JSONSchemaProps{}
 			}
 			keyInfo = nil // stop iterating
+		case *types.Alias:
+			keyInfo = types.Unalias(typedKey)
 		case *types.Named:
 			keyInfo = typedKey.Underlying()
 		default:
-- 
2.43.0


From df35ffce4363e3572ff7f8c6d2d8e2a21817bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 04/77] fix: treat all byte slices that encoding/json encodes
 as base64 alike

---
 pkg/crd/schema.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 506a7a5..f9c12be 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -39,11 +39,6 @@ const (
 	defPrefix = "#/definitions/"
 )
 
-// byteType is the types.Type for byte (see the types documention
-// for why we need to look this up in the Universe), saved
-// for quick comparison.
-var byteType = types.Universe.Lookup("byte").Type()
-
 // SchemaMarker is any marker that needs to modify the schema of the underlying type or field.
 type SchemaMarker interface {
 	// ApplyToSchema is called after the rest of the schema for a given type
@@ -347,7 +342,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if isByte(eltType) && array.Len == nil {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
@@ -562,6 +557,16 @@ var textMarshaler = types.NewInterfaceType([]*types.Func{
 				types.NewVar(token.NoPos, nil, "err", types.Universe.Lookup("error").Type())), false)),
 }, nil).Complete()
 
+// isByte checks if encoding/json encodes slices of the given type as base64 strings,
+// i.e. if it's byte, uint8, or derived from those without a marshaler of its own.
+func isByte(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	basic, isBasic := typ.Underlying().(*types.Basic)
+	return isBasic && basic.Kind() == types.Byte && !implements(typ, jsonMarshaler) && !implements(typ, textMarshaler)
+}
+
 func implements(typ types.Type, iface *types.Interface) bool {
 	return types.Implements(typ, iface) || types.Implements(types.NewPointer(typ), iface)
 }
-- 
2.43.0


From 8b347ccdaddfeba31e32dd66e39b2acc248067fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/77] fix: use the Go name for fields whose JSON tag has no
 name

---
 pkg/crd/schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index f9c12be..a3e69ac 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -451,7 +451,13 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			}
 		}
 		fieldName := jsonOpts[0]
-		inline = inline || fieldName == "" // anonymous fields are inline fields in YAML/JSON
+		if fieldName == "" && !inline {
+			if field.Name == "" {
+				inline = true // anonymous fields are inline fields in YAML/JSON
+			} else {
+				fieldName = field.Name // other fields keep their Go name
+			}
+		}
 
 		// if no default required mode is set, default to required
 		defaultMode := "required"
-- 
2.43.0


From 01afe8d6e308d0d231e72ee9046c2b16aaca9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 06/77] fix: don't list inline fields as required

---
 pkg/crd/schema.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index a3e69ac..aeb4781 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -466,6 +466,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		}
 
 		switch {
+		case inline:
+			// inline fields have no name that could be required
 		case field.Markers.Get("kubebuilder:validation:Optional") != nil:
 			// explicitly optional - kubebuilder
 		case field.Markers.Get("kubebuilder:validation:Required") != nil:
@@ -479,8 +481,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		// if this package isn't set to optional default...
 		case defaultMode == "required":
-			// ...everything that's not inline / omitempty is required
-			if !inline && !omitEmpty {
+			// ...everything that's not omitempty is required
+			if !omitEmpty {
 				props.Required = append(props.Required, fieldName)
 			}
 
-- 
2.43.0


From 57c61f840980ba8486cf94feb5e4a4df99a68250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 07/77] fix: parse negative numbers that follow whitespace in
 marker arguments

---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..9160e5c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -516,7 +516,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			}
 		}
 	case NumberType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
@@ -542,7 +542,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 
 		castAndSet(out, reflect.ValueOf(val))
 	case IntType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
-- 
2.43.0


From 48ccbd92dbcc45c034ac7bed4af1bba545c318a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 08/77] fix: apply schema markers of equal priority in a stable
 order

---
 pkg/crd/schema.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index aeb4781..c711798 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -143,8 +143,15 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	// go through the markers by name to apply those of the same priority in the same order every time
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -184,8 +191,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From 168cb837e46964290a8e27d93a5dcc65d1dfc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 09/77] fix: apply the Type marker before the listType marker
 that depends on it

---
 pkg/crd/markers/validation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index e1cad59..730830f 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -515,7 +515,8 @@ func (m Type) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
 }
 
 func (m Type) ApplyPriority() ApplyPriority {
-	return ApplyPriorityDefault - 1
+	// explicitly go before listType markers, which check the type
+	return ApplyPriorityDefault - 2
 }
 
 func (m Nullable) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
-- 
2.43.0


From bc021b61f3a79a7ad914ad1533183c06ce589d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 10/77] fix: report anonymous structs instead of panicking

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index c711798..40e7654 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -424,7 +424,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From f58a854b1be4f0f4eb37b1137b13c5bf458c8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 11/77] fix: report labels without a value instead of panicking

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From ba7edb35eec738af43e8e0da5a5b91e488181272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 12/77] fix: don't write an empty CRD for kinds without
 versions

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..3650e01 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, hasCRD := parser.CustomResourceDefinitions[groupKind]
+		if !hasCRD {
+			// no version of this kind is left, so there's nothing to write
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From 8a6324d24e88b31e17817b3d45f10daefc3ad7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 13/77] fix: apply CRD markers in a stable order

---
 pkg/crd/spec.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..767a6ff 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -24,6 +24,7 @@ import (
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
 	"sigs.k8s.io/controller-tools/pkg/loader"
 )
 
@@ -60,6 +61,8 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// go through the packages in the same order every time
+	sort.Slice(packages, func(i, j int) bool { return packages[i].ID < packages[j].ID })
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -113,8 +116,23 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		// go through the markers in the same order every time, skipping the version
+		// only after the markers that need it to be there
+		markerNames := make([]string, 0, len(typeInfo.Markers))
+		for name := range typeInfo.Markers {
+			markerNames = append(markerNames, name)
+		}
+		sort.Slice(markerNames, func(i, j int) bool {
+			_, iSkips := typeInfo.Markers.Get(markerNames[i]).(crdmarkers.SkipVersion)
+			_, jSkips := typeInfo.Markers.Get(markerNames[j]).(crdmarkers.SkipVersion)
+			if iSkips != jSkips {
+				return jSkips
+			}
+			return markerNames[i] < markerNames[j]
+		})
+
+		for _, name := range markerNames {
+			for _, val := range typeInfo.Markers[name] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
@@ -169,7 +187,11 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 	if !served {
 		// just add the error to the first relevant package for this CRD,
 		// since there's no specific error location
-		packages[0].AddError(fmt.Errorf("CRD for %s with version(s) %v does not serve any version", groupKind, crd.Spec.Versions))
+		versions := make([]string, len(crd.Spec.Versions))
+		for i, ver := range crd.Spec.Versions {
+			versions[i] = ver.Name
+		}
+		packages[0].AddError(fmt.Errorf("CRD for %s with version(s) %v does not serve any version", groupKind, versions))
 	}
 
 	p.CustomResourceDefinitions[groupKind] = crd
-- 
2.43.0


From 13f52e8aedb862318c8c703956d2787ab2084ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 14/77] fix: truncate descriptions at character boundaries

---
 pkg/crd/desc_visitor.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..09028f5 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -64,11 +65,17 @@ func truncateString(desc string, maxLen int) string {
 		return desc
 	}
 
-	desc = desc[0:maxLen]
+	// don't cut in the middle of a character
+	cut := maxLen
+	for cut > 0 && !utf8.RuneStart(desc[cut]) {
+		cut--
+	}
+	desc = desc[0:cut]
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
@@ -76,7 +83,7 @@ func truncateString(desc string, maxLen int) string {
 		return desc[0:n] + "..."
 	}
 
-	return desc[0:maxLen] + "..."
+	return desc + "..."
 }
 
 // helper function to determine if given rune is a sentence terminal or not.
-- 
2.43.0


From 9118a713553d28c3e315090bef1aace9222d3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 15/77] fix: generate compiling copies of pointers to named
 reference types

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..54e0bb0 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -545,10 +545,10 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
+			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, underlyingElem)
 		})
 		return
 	}
-- 
2.43.0


From 12d2a07d6b07877284c40b70d94f610c263458a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 16/77] fix: deep-copy values of alias types like the types
 they stand for

---
 pkg/deepcopy/traverse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 54e0bb0..c9f67b2 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -347,7 +347,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -461,7 +461,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
@@ -588,7 +588,7 @@ func resultWillBePointer(typeInfo types.Type, hasDeepCopy, deepCopyOnPtr bool) b
 	}
 
 	// otherwise, we'll need to check its type
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		// NB(directxman12): we don't have to worry about the elem having a deepcopy,
 		// since hasManualDeepCopy would've caught that.
@@ -764,6 +764,9 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 		default:
 			return true
 		}
+	case *types.Alias:
+		// actual aliases are the same thing as what they stand for
+		return fineToShallowCopy(types.Unalias(typeInfo))
 	case *types.Named:
 		// aliases are fine to shallow-copy as long as they resolve to a shallow-copyable type
 		return fineToShallowCopy(typeInfo.Underlying())
-- 
2.43.0


From 32330926b313cd04688a89955324b74331975a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 17/77] fix: report types that deepcopy code cannot name
 instead of panicking or writing code that does not compile

---
 pkg/deepcopy/traverse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index c9f67b2..723a8ec 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -198,10 +198,13 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
-		// local import
+	if otherPkg == nil || otherPkg == basePkg.Types {
+		// predeclared (e.g. error), or local import
 		return typeName.Name()
 	}
+	if !typeName.Exported() {
+		basePkg.AddError(fmt.Errorf("name requested for unexported type of another package: %s", typeName))
+	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
 	return alias + "." + typeName.Name()
 }
-- 
2.43.0


From bfee76561f750375b8aaaf828a9e28fdd3c19ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 18/77] fix: don't generate deepcopy methods for named pointer
 types, which cannot have any

---
 pkg/deepcopy/traverse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 723a8ec..bda12d1 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -629,10 +629,9 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	lastType := typeInfo
 	if _, isNamed := typeInfo.(*types.Named); isNamed {
 		// according to gengo, everything named is an alias, except for an alias to a pointer,
-		// which is just a pointer, afaict.  Just roll with it.
-		if asPtr, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
-			lastType = asPtr
-			typeInfo = asPtr
+		// which is just a pointer, afaict (and can't have methods).  Just roll with it.
+		if _, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
+			return false
 		}
 
 		// if it has a manual deepcopy or deepcopyinto, we're fine
-- 
2.43.0


From 6be6309f56257bd57cd5c0667898605f47063d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 19/77] fix: generate compiling copies of pointers to and
 slices of pointers to types with deepcopy methods

---
 pkg/deepcopy/traverse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index bda12d1..484f3ca 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -413,8 +413,9 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
 
 	// check if we need to do anything special, or just copy each element appropriately
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case !elemIsPtr && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
@@ -523,9 +524,11 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
 	// if we have a manually written deepcopy, just use that
+	// (except that there's no calling methods through a pointer to a pointer)
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if !elemIsPtr && (hasDeepCopyInto || hasDeepCopy) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
-- 
2.43.0


From 19d04e900e30e515fec1c877a1cb61f52be79db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 20/77] fix: generate compiling copies of named pointer types
 to types with deepcopy methods

---
 pkg/deepcopy/traverse.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 484f3ca..edbfe93 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -520,9 +520,15 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 // genPointerDeepCopy generates DeepCopy code for the given named type whose
 // underlying type is the given struct.
-func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.Pointer) {
+func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType *types.Pointer) {
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
+	// named pointer types don't have the methods of what they point to
+	recv := "(*in)"
+	if _, isPtr := types.Unalias(actualName.typeInfo).(*types.Pointer); !isPtr {
+		recv = "(**in)"
+	}
+
 	// if we have a manually written deepcopy, just use that
 	// (except that there's no calling methods through a pointer to a pointer)
 	_, elemIsPtr := underlyingElem.(*types.Pointer)
@@ -534,9 +540,9 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 			outNeedsPtr = copyOnPtr
 		}
 		if outNeedsPtr {
-			c.Line("*out = (*in).DeepCopy()")
+			c.Linef("*out = %s.DeepCopy()", recv)
 		} else {
-			c.Line("x := (*in).DeepCopy()")
+			c.Linef("x := %s.DeepCopy()", recv)
 			c.Line("*out = &x")
 		}
 		return
@@ -563,7 +569,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
-		c.Line("(*in).DeepCopyInto(*out)")
+		c.Linef("%s.DeepCopyInto(*out)", recv)
 	default:
 		c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
 		return
-- 
2.43.0


From a2ce584ec5bea3fcd06547b68f3def398e2f396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 21/77] fix: don't dereference nil pointers in maps in
 generated deepcopy code

---
 pkg/deepcopy/traverse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index edbfe93..4fcea26 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -347,10 +347,13 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		// in which case we'll just try and use those
 		hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, mapType.Elem())
 		hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, mapType.Elem())
+		asPtr, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer) // is "out" actually a pointer
+		// pointers might be nil, which the methods can't be expected to handle,
+		// so (except for pointers to reference types) let the main switch handle them
+		maybeNil := fieldIsPtr && !passesByReference(eventualUnderlyingType(asPtr.Elem()))
 		switch {
-		case hasDeepCopyInto || hasDeepCopy:
+		case (hasDeepCopyInto || hasDeepCopy) && !maybeNil:
 			// use the manually-written methods
-			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
-- 
2.43.0


From 139a4385cfab14b0215e67b49dde2bb4ca0b79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 22/77] fix: report anonymous structs that cannot be
 deep-copied

---
 pkg/deepcopy/traverse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 4fcea26..a0639cf 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -511,6 +511,10 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 		case *types.Struct:
 			if fineToShallowCopy(field.Type()) {
 				c.Linef("out.%[1]s = in.%[1]s", field.Name())
+			} else if _, isAnon := types.Unalias(field.Type()).(*types.Struct); isAnon {
+				// there's no way to write methods for those
+				c.pkg.AddError(loader.ErrFromNode(fmt.Errorf("invalid field type: %s", underlyingField), field))
+				return
 			} else {
 				c.Linef("in.%[1]s.DeepCopyInto(&out.%[1]s)", field.Name())
 			}
-- 
2.43.0


From adf8973355876effc2d5765f2289bc7e020b64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 23/77] fix: don't use identifiers that are taken as import
 aliases in deepcopy code

---
 pkg/deepcopy/gen.go      |  1 +
 pkg/deepcopy/traverse.go | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index a85cc85..cd20c95 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -215,6 +215,7 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) []byte {
 	}
 	// avoid confusing aliases by "reserving" the root package's name as an alias
 	imports.byAlias[root.Name] = ""
+	imports.reserveIdents()
 
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
 		outContent := new(bytes.Buffer)
diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index a0639cf..c53f9ec 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -19,6 +19,7 @@ package deepcopy
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"go/types"
 	"io"
 	"path"
@@ -88,6 +89,22 @@ type importsList struct {
 	pkg *loader.Package
 }
 
+// reserveIdents keeps identifiers that cannot be (or are otherwise) used in the
+// generated code from being used as import aliases.
+func (l *importsList) reserveIdents() {
+	// blanks, keywords, and the variables used in generated methods...
+	reserved := []string{"", "_", "in", "out", "inVal", "outVal", "key", "val", "i", "x", "c", "clone"}
+	for tok := token.BREAK; tok <= token.VAR; tok++ {
+		reserved = append(reserved, tok.String())
+	}
+	// ...and predeclared and package-level identifiers
+	reserved = append(reserved, types.Universe.Names()...)
+	reserved = append(reserved, l.pkg.Types.Scope().Names()...)
+	for _, ident := range reserved {
+		l.byAlias[ident] = ""
+	}
+}
+
 // NeedImport marks that the given package is needed in the list of imports,
 // returning the ident (import alias) that should be used to reference the package.
 func (l *importsList) NeedImport(importPath string) string {
-- 
2.43.0


From 396fd47eade416800192b4c78b8cf46c14c2d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 24/77] fix: generate DeepCopyObject depending on whether it,
 not DeepCopy, is hand-written

---
 pkg/deepcopy/traverse.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index c53f9ec..703356b 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -285,16 +285,19 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		} else {
 			c.Linef(bareDeepCopy, info.Name)
 		}
+	}
 
-		// maybe also generate DeepCopyObject, if asked.
-		if genObjectInterface(info) {
-			// we always need runtime.Object for DeepCopyObject
-			runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
-			if ptrReceiver {
-				c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
-			} else {
-				c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
-			}
+	// maybe also generate DeepCopyObject, if asked.
+	if genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo) {
+		// we always need runtime.Object for DeepCopyObject
+		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
+		switch {
+		case !ptrReceiver:
+			c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
+		case hasManualDeepCopy && !deepCopyOnPtr:
+			c.Linef(valDeepCopyObj, info.Name, runtimeAlias)
+		default:
+			c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
 		}
 	}
 }
@@ -767,6 +770,14 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 	return methodSig.Recv().Type() == paramPtr.Elem()
 }
 
+// hasDeepCopyObjectMethod checks if this type itself has a manual DeepCopyObject method.
+func hasDeepCopyObjectMethod(pkg *loader.Package, typeInfo types.Type) bool {
+	method, ind, _ := types.LookupFieldOrMethod(typeInfo, true /* check pointers too */, pkg.Types, "DeepCopyObject")
+	_, isMethod := method.(*types.Func)
+	// ignore embedded methods
+	return isMethod && len(ind) == 1
+}
+
 // hasAnyDeepCopyMethod checks if the given method has DeepCopy or DeepCopyInto
 // (either of which implies the other will exist eventually).
 func hasAnyDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) bool {
@@ -866,6 +877,15 @@ func (in *%[1]s) DeepCopyObject() %[2]s.Object {
 	}
 	return nil
 }
+`
+	// valDeepCopyObj is a DeepCopyObject for a type with a manual DeepCopy on values and a pointer receiver.
+	valDeepCopyObj = `
+// DeepCopyObject is an autogenerated deepcopy function, copying the receiver, creating a new runtime.Object.
+func (in *%[1]s) DeepCopyObject() %[2]s.Object {
+	if in == nil { return nil }
+	out := in.DeepCopy()
+	return &out
+}
 `
 	// ptrDeepCopy is a DeepCopyObject for a type with an existing DeepCopyInto and a non-pointer receiver.
 	bareDeepCopyObj = `
-- 
2.43.0


From 775b914ca1623dd54a64dfd646caa2aaeb980087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 25/77] fix: report fields named like generated deepcopy
 methods instead of panicking

---
 pkg/deepcopy/traverse.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 703356b..0fcaffd 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -242,6 +242,18 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		root.AddError(loader.ErrFromNode(fmt.Errorf("unknown type: %s", info.Name), info.RawSpec))
 	}
 
+	// fields of the same name would clash with the methods
+	if structInfo, isStruct := typeInfo.Underlying().(*types.Struct); isStruct {
+		for i := 0; i < structInfo.NumFields(); i++ {
+			field := structInfo.Field(i)
+			name := field.Name()
+			if name == "DeepCopy" || name == "DeepCopyInto" || (name == "DeepCopyObject" && genObjectInterface(info)) {
+				root.AddError(loader.ErrFromNode(fmt.Errorf("field name clashes with generated method: %s", name), field))
+				return
+			}
+		}
+	}
+
 	// figure out if we need to use a pointer receiver -- most types get a pointer receiver,
 	// except those that are aliases to types that are already pass-by-reference (pointers,
 	// interfaces. maps, slices).
@@ -702,7 +714,7 @@ func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
 		// ignore embedded methods
 		return false, false
 	}
-	if deepCopyMethod == nil {
+	if _, isMethod := deepCopyMethod.(*types.Func); !isMethod {
 		return false, false
 	}
 
@@ -744,7 +756,7 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 		// ignore embedded methods
 		return false
 	}
-	if deepCopyMethod == nil {
+	if _, isMethod := deepCopyMethod.(*types.Func); !isMethod {
 		return false
 	}
 
-- 
2.43.0


From 7ad8cba9748033dcecb4e2f130fdded3cb62e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 26/77] fix: reject webhook timeouts that overflow an int32

---
 pkg/webhook/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..ae5e465 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -24,6 +24,7 @@ package webhook
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strings"
 
@@ -382,7 +383,8 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
 func (c Config) timeoutSeconds() *int32 {
 	if c.TimeoutSeconds != 0 {
-		timeoutSeconds := int32(c.TimeoutSeconds)
+		// don't wrap around into the valid range (that's checked later)
+		timeoutSeconds := int32(min(max(c.TimeoutSeconds, math.MinInt32), math.MaxInt32))
 		return &timeoutSeconds
 	}
 	return nil
-- 
2.43.0


From d363e3e80473dbf84477b167644071c8f7789745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 27/77] fix: reject unknown webhook reinvocation policies
 instead of dropping them

---
 pkg/webhook/parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index ae5e465..a92b8ad 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -223,6 +223,11 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		return admissionregv1.MutatingWebhook{}, err
 	}
 
+	reinvocationPolicy, err := c.reinvocationPolicy()
+	if err != nil {
+		return admissionregv1.MutatingWebhook{}, err
+	}
+
 	return admissionregv1.MutatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -232,7 +237,7 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		SideEffects:             c.sideEffects(),
 		TimeoutSeconds:          c.timeoutSeconds(),
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
-		ReinvocationPolicy:      c.reinvocationPolicy(),
+		ReinvocationPolicy:      reinvocationPolicy,
 	}, nil
 }
 
@@ -391,17 +396,19 @@ func (c Config) timeoutSeconds() *int32 {
 }
 
 // reinvocationPolicy returns the reinvocationPolicy config for a mutating webhook.
-func (c Config) reinvocationPolicy() *admissionregv1.ReinvocationPolicyType {
+func (c Config) reinvocationPolicy() (*admissionregv1.ReinvocationPolicyType, error) {
 	var reinvocationPolicy admissionregv1.ReinvocationPolicyType
 	switch strings.ToLower(c.ReinvocationPolicy) {
 	case strings.ToLower(string(admissionregv1.NeverReinvocationPolicy)):
 		reinvocationPolicy = admissionregv1.NeverReinvocationPolicy
 	case strings.ToLower(string(admissionregv1.IfNeededReinvocationPolicy)):
 		reinvocationPolicy = admissionregv1.IfNeededReinvocationPolicy
+	case "":
+		return nil, nil
 	default:
-		return nil
+		return nil, fmt.Errorf("unknown value %q for reinvocationPolicy", c.ReinvocationPolicy)
 	}
-	return &reinvocationPolicy
+	return &reinvocationPolicy, nil
 }
 
 // webhookVersions returns the target API versions of the {Mutating,Validating}WebhookConfiguration objects for a webhook.
-- 
2.43.0


From 9175dc203518a4e346f516c4ea4bde41d2dc9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 28/77] fix: reject conflicting webhook configuration names
 from several packages

---
 pkg/webhook/parser.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index a92b8ad..f4fc4c1 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -473,9 +473,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 					return fmt.Errorf("duplicate mutating %s with name %s", WebhookConfigDefinition.Name, webhookCfg.Name)
 				}
 
-				if mutatingWebhookCfgs, err = webhookCfg.ToMutatingWebhookConfiguration(); err != nil {
+				newCfg, err := webhookCfg.ToMutatingWebhookConfiguration()
+				if err != nil {
 					return err
 				}
+				// all packages contribute to the same configuration
+				if newCfg.Name != "" && mutatingWebhookCfgs.Name != "" && newCfg.Name != mutatingWebhookCfgs.Name {
+					return fmt.Errorf("conflicting mutating %s with names %s and %s", WebhookConfigDefinition.Name, mutatingWebhookCfgs.Name, newCfg.Name)
+				}
+				if newCfg.Name != "" {
+					mutatingWebhookCfgs = newCfg
+				}
 
 				hasMutatingWebhookConfig = true
 			} else {
@@ -483,9 +491,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 					return fmt.Errorf("duplicate validating %s with name %s", WebhookConfigDefinition.Name, webhookCfg.Name)
 				}
 
-				if validatingWebhookCfgs, err = webhookCfg.ToValidatingWebhookConfiguration(); err != nil {
+				newCfg, err := webhookCfg.ToValidatingWebhookConfiguration()
+				if err != nil {
 					return err
 				}
+				// all packages contribute to the same configuration
+				if newCfg.Name != "" && validatingWebhookCfgs.Name != "" && newCfg.Name != validatingWebhookCfgs.Name {
+					return fmt.Errorf("conflicting validating %s with names %s and %s", WebhookConfigDefinition.Name, validatingWebhookCfgs.Name, newCfg.Name)
+				}
+				if newCfg.Name != "" {
+					validatingWebhookCfgs = newCfg
+				}
 
 				hasValidatingWebhookConfig = true
 			}
-- 
2.43.0


From 31548d1888692de1e4645d37b5917a8e1c405216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 29/77] fix: reject marker integers that overflow their
 argument's type

---
 pkg/markers/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 9160e5c..7fe745f 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -561,6 +561,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("integer out of range: %s", text))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From ee0af84ca46189f62c41504b6b585de43eef71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 30/77] fix: don't parse separators as parts of bare strings in
 marker arguments

---
 pkg/markers/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 7fe745f..837dd3c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -386,6 +386,11 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
 	// the "hard" case (present for backwards compat) is a bare sequence of tokens that aren't
 	// a comma.
+	if hint := peekNoSpace(scanner); hint == ',' || hint == ';' {
+		// an empty bare string (don't mistake the separator for a part of it)
+		castAndSet(out, reflect.ValueOf(""))
+		return
+	}
 	tok := scanner.Scan()
 	if tok == sc.String || tok == sc.RawString {
 		// the easy case
-- 
2.43.0


From 5f7be836783e5db2ef75f9def903d78e4191ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 31/77] fix: accept any text as raw marker arguments

---
 pkg/markers/parse.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 837dd3c..5293516 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -512,13 +512,8 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 	case RawType:
 		// raw consumes everything else
 		castAndSet(out, reflect.ValueOf(raw[scanner.Pos().Offset:]))
-		// consume everything else
-		var tok rune
-		for {
-			tok = scanner.Scan()
-			if tok == sc.EOF {
-				break
-			}
+		// consume everything else (which need not consist of valid tokens)
+		for scanner.Next() != sc.EOF {
 		}
 	case NumberType:
 		nextChar := peekNoSpace(scanner)
-- 
2.43.0


From 668b08f0ed15b0f3604e31b8b8d5ef45f2eb1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 32/77] fix: recognise legacy slices of free-form marker values
 inside of maps, and strings that look like bad numbers

---
 pkg/markers/parse.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 5293516..e1e7c87 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -264,23 +264,27 @@ func guessType(scanner *sc.Scanner, raw string, allowSlice bool) *Argument {
 	if allowSlice {
 		maybeItem := guessType(scanner, raw, false)
 
-		subRaw := raw[scanner.Pos().Offset:]
-		subScanner := parserScanner(subRaw, scanner.Error)
-
-		var tok rune
-		for {
-			tok = subScanner.Scan()
-			if tok == ',' || tok == sc.EOF || tok == ';' {
-				break
-			}
-			// wait till we get something interesting
-		}
-
-		// semicolon means it's a legacy slice
-		if tok == ';' {
-			return &Argument{
-				Type:     SliceType,
-				ItemType: maybeItem,
+		// look for the separator that follows the item, skipping the item's own braces
+		// (errors are reported once it's actually parsed)
+		isDelimited := maybeItem.Type == SliceType || maybeItem.Type == MapType
+		subScanner := parserScanner(raw[scanner.Pos().Offset:], func(*sc.Scanner, string) {})
+		subScanner.Mode &^= sc.ScanInts | sc.ScanFloats
+		for depth := 0; depth >= 0; {
+			switch tok := subScanner.Scan(); {
+			case tok == sc.EOF:
+				return maybeItem
+			case tok == '{' && isDelimited:
+				depth++
+			case tok == '}':
+				depth--
+			case tok == ';' && depth == 0:
+				// semicolon means it's a legacy slice
+				return &Argument{
+					Type:     SliceType,
+					ItemType: maybeItem,
+				}
+			case (tok == ',' || tok == ':') && depth == 0:
+				return maybeItem
 			}
 		}
 
@@ -311,7 +315,7 @@ func guessType(scanner *sc.Scanner, raw string, allowSlice bool) *Argument {
 
 		// look ahead till we can figure out if this is a map or a slice
 		hint = peekNoSpace(subScanner)
-		firstElemType := guessType(subScanner, subRaw, false)
+		firstElemType := guessType(subScanner, subRaw, true)
 		if firstElemType.Type == StringType {
 			// might be a map or slice, parse the string and check for colon
 			// (blech, basically arbitrary look-ahead due to raw strings).
-- 
2.43.0


From cd48cee9908307466d614e635a976c291d6cc000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 33/77] fix: limit the effort spent on deeply nested or long
 marker values

---
 pkg/markers/parse.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index e1e7c87..f375781 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -17,7 +17,6 @@ limitations under the License.
 package markers
 
 import (
-	"bytes"
 	"fmt"
 	"reflect"
 	"strconv"
@@ -377,6 +376,36 @@ func guessType(scanner *sc.Scanner, raw string, allowSlice bool) *Argument {
 	return &Argument{Type: StringType}
 }
 
+// maxNesting is the number of levels that slices and maps of guessed type can be
+// nested.  Guessing takes effort (and types) for each of them.
+const maxNesting = 1000
+
+// nestedTooDeeply checks if the next value exceeds maxNesting.
+func nestedTooDeeply(scanner *sc.Scanner, raw string) bool {
+	if peekNoSpace(scanner) != '{' {
+		return false
+	}
+	// (errors are reported once it's actually parsed)
+	subScanner := parserScanner(raw[scanner.Pos().Offset:], func(*sc.Scanner, string) {})
+	subScanner.Mode &^= sc.ScanInts | sc.ScanFloats
+	depth := 0
+	for tok := subScanner.Scan(); tok != sc.EOF; tok = subScanner.Scan() {
+		switch tok {
+		case '{':
+			depth++
+		case '}':
+			depth--
+		}
+		if depth > maxNesting {
+			return true
+		}
+		if depth == 0 {
+			break
+		}
+	}
+	return false
+}
+
 // parseString parses either of the two accepted string forms (quoted, or bare tokens).
 func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Value) {
 	// we need to temporarily disable the scanner's int/float parsing, since we want to
@@ -589,6 +618,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			return
 		}
 	case AnyType:
+		if nestedTooDeeply(scanner, raw) {
+			scanner.Error(scanner, fmt.Sprintf("values can't be nested more than %d levels deep", maxNesting))
+			return
+		}
 		guessedType := guessType(scanner, raw, !inSlice)
 		newOut := out
 
@@ -819,7 +852,7 @@ func (d *Definition) loadFields() error {
 // parserScanner makes a new scanner appropriate for use in parsing definitions and arguments.
 func parserScanner(raw string, err func(*sc.Scanner, string)) *sc.Scanner {
 	scanner := &sc.Scanner{}
-	scanner.Init(bytes.NewBufferString(raw))
+	scanner.Init(strings.NewReader(raw))
 	scanner.Mode = sc.ScanIdents | sc.ScanInts | sc.ScanFloats | sc.ScanStrings | sc.ScanRawStrings | sc.SkipComments
 	scanner.Error = err
 
-- 
2.43.0


From 4c27ff43a6450f9077cc1ff96c3b0a22f22202be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 34/77] fix: don't panic when looking up an empty marker

---
 pkg/markers/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f375781..1af3872 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -1005,6 +1005,9 @@ func MakeAnyTypeDefinition(name string, target TargetType, output interface{}) (
 // into the name (`a:b`), the name if it's not a struct (`a:b:c`), and the parts
 // that are definitely fields (`arg,d=arg`).
 func splitMarker(raw string) (name string, anonymousName string, restFields string) {
+	if raw == "" {
+		return "", "", ""
+	}
 	raw = raw[1:] // get rid of the leading '+'
 	nameFieldParts := strings.SplitN(raw, "=", 2)
 	if len(nameFieldParts) == 1 {
-- 
2.43.0


From ae4ef197d66149d44038eb6902b9c9903459e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 35/77] fix: don't take the last segment of a marker's name for
 an argument of an anonymous marker

---
 pkg/markers/reg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 7dcd458..742d63c 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -150,5 +150,11 @@ func tryAnonLookup(name string, defs map[string]*Definition) *Definition {
 		return def
 	}
 
-	return defs[name]
+	def := defs[name]
+	if def != nil && def.AnonymousField() && anonName != name && anonName != name+":" {
+		// the last segment would be the name of an argument, but the definition hasn't got
+		// named ones (an empty one is part of the `+foo:=` spelling, and thus okay).
+		return nil
+	}
+	return def
 }
-- 
2.43.0


From e8459aa20fcb42eb00ff6b492306173726bc06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 36/77] fix: don't lose the end of bare strings followed by
 whitespace in marker arguments

---
 pkg/markers/parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 1af3872..db1afbf 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -439,12 +439,13 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// the "hard" case -- bare tokens not including ',' (the argument
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
-	startPos := scanner.Position.Offset
+	// (the end is that of the last token -- skipping whitespace forgets about the token)
+	startPos, endPos := scanner.Position.Offset, scanner.Pos().Offset
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
 		// skip this token
 		scanner.Scan()
+		endPos = scanner.Pos().Offset
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From 97a74a9e984f2355a36324883db66d82e480b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 37/77] fix: report empty options instead of panicking

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From 6c5f07c52e8b3a3f3ef2894ee531285d59717ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 38/77] fix: don't panic in helpgen when there's no header file

---
 cmd/helpgen/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..c12ed69 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -155,9 +155,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		sort.Strings(typeNames)
 
 		outContent := new(bytes.Buffer)
-		if headerText == "" {
-			panic("at the disco!")
-		}
 		fmt.Fprintf(outContent, header, root.Name, headerText)
 
 		for _, typ := range typeNames {
-- 
2.43.0


From ac01ecc72d8bce982ff679f1c58e9346ffc5714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 39/77] fix: keep package-level markers in source order

---
 pkg/markers/collect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 23f52e3..352f10b 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"sort"
 	"strings"
 	"sync"
 
@@ -192,6 +193,11 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 		}
 		visitor.nodeMarkers[node] = markers[:endOfMarkers] // re-set after trimming the package markers
 	}
+
+	// the package-level markers come from several places, put them back in source order
+	sort.SliceStable(visitor.pkgMarkers, func(i, j int) bool {
+		return visitor.pkgMarkers[i].Pos() < visitor.pkgMarkers[j].Pos()
+	})
 	visitor.nodeMarkers[file] = visitor.pkgMarkers
 
 	return visitor.nodeMarkers
-- 
2.43.0


From 69fc96847fbd836b5f3d29d9b77252f1eb79d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 40/77] fix: don't attribute markers behind a declaration with
 comments inside to the next one

---
 pkg/markers/collect.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 352f10b..27ef9f2 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -149,8 +149,9 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 	visitor := markerSubVisitor{
 		collectPackageLevel: true,
 		markerVisitor: &markerVisitor{
-			nodeMarkers: make(map[ast.Node][]markerComment),
-			allComments: file.Comments,
+			nodeMarkers:  make(map[ast.Node][]markerComment),
+			allComments:  file.Comments,
+			lineComments: make(map[*ast.CommentGroup]struct{}),
 		},
 	}
 	ast.Walk(visitor, file)
@@ -223,8 +224,9 @@ type markerVisitor struct {
 	allComments []*ast.CommentGroup
 	commentInd  int
 
-	declComments         []markerComment
-	lastLineCommentGroup *ast.CommentGroup
+	declComments []markerComment
+	// lineComments are the comments on the same line as the end of some node
+	lineComments map[*ast.CommentGroup]struct{}
 
 	pkgMarkers  []markerComment
 	nodeMarkers map[ast.Node][]markerComment
@@ -251,6 +253,10 @@ func (v *markerVisitor) markersBetween(fromGodoc bool, start, end int) []markerC
 	var res []markerComment
 	for i := start; i < end; i++ {
 		commentGroup := v.allComments[i]
+		if _, isLineComment := v.lineComments[commentGroup]; isLineComment {
+			// skip comments on the same line as some previous node
+			continue
+		}
 		for _, comment := range commentGroup.List {
 			if !isMarkerComment(comment.Text) {
 				continue
@@ -294,13 +300,6 @@ func (v markerSubVisitor) Visit(node ast.Node) ast.Visitor {
 		return nil
 	}
 
-	// skip comments on the same line as the previous node
-	// making sure to double-check for the case where we've gone past the end of the comments
-	// but still have to finish up typespec-gendecl association (see below).
-	if v.lastLineCommentGroup != nil && v.commentInd < len(v.allComments) && v.lastLineCommentGroup.Pos() == v.allComments[v.commentInd].Pos() {
-		v.commentInd++
-	}
-
 	// stop visiting if there are no more comments in the file
 	// NB(directxman12): we can't just stop immediately, because we
 	// still need to check if there are typespecs associated with gendecls.
@@ -321,8 +320,12 @@ func (v markerSubVisitor) Visit(node ast.Node) ast.Visitor {
 		lastCommentInd-- // ...then decrement to get the last comment before the node in question
 
 		// figure out the godoc comment so we can deal with it separately
-		var docGroup *ast.CommentGroup
-		docGroup, v.lastLineCommentGroup = associatedCommentsFor(node)
+		docGroup, lineCommentGroup := associatedCommentsFor(node)
+		if lineCommentGroup != nil {
+			// comments on the same line as this node are not above the next one,
+			// even if there are other comments in between, inside of this node
+			v.lineComments[lineCommentGroup] = struct{}{}
+		}
 
 		// find the last comment group that's not godoc
 		markerCommentInd := lastCommentInd
-- 
2.43.0


From 3dfed1c604e8b09836fd283ba6594656ff987198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 41/77] fix: don't lose package-level markers inside of type
 groups

---
 pkg/markers/collect.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 27ef9f2..00e5126 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -277,24 +277,25 @@ type markerSubVisitor struct {
 // collecting unassociated markers as package-level.
 func (v markerSubVisitor) Visit(node ast.Node) ast.Visitor {
 	if node == nil {
-		// end of the node, so we might need to advance comments beyond the end
-		// of the block if we don't want to collect package-level markers in
-		// this block.
-
-		if !v.collectPackageLevel {
-			if v.commentInd < len(v.allComments) {
-				lastCommentInd := v.commentInd
-				nextGroup := v.allComments[lastCommentInd]
-				for nextGroup.Pos() < v.node.End() {
-					lastCommentInd++
-					if lastCommentInd >= len(v.allComments) {
-						// after the increment so our decrement below still makes sense
-						break
-					}
-					nextGroup = v.allComments[lastCommentInd]
+		// end of the node, so we need to advance comments beyond the end of
+		// the block, whether or not we want to collect package-level markers
+		// in this block.
+
+		if v.commentInd < len(v.allComments) {
+			lastCommentInd := v.commentInd
+			nextGroup := v.allComments[lastCommentInd]
+			for nextGroup.Pos() < v.node.End() {
+				lastCommentInd++
+				if lastCommentInd >= len(v.allComments) {
+					// after the increment so our decrement below still makes sense
+					break
 				}
-				v.commentInd = lastCommentInd
+				nextGroup = v.allComments[lastCommentInd]
 			}
+			if v.collectPackageLevel {
+				v.pkgMarkers = append(v.pkgMarkers, v.markersBetween(false, v.commentInd, lastCommentInd)...)
+			}
+			v.commentInd = lastCommentInd
 		}
 
 		return nil
@@ -362,6 +363,8 @@ func (v markerSubVisitor) Visit(node ast.Node) ast.Visitor {
 		if typedNode.Lparen != token.NoPos || typedNode.Tok != token.TYPE {
 			// not a single-line type spec, treat them as free comments
 			v.pkgMarkers = append(v.pkgMarkers, markerCommentBlock...)
+			// free comments between the types of a group are package-level, too
+			resVisitor.collectPackageLevel = v.collectPackageLevel && typedNode.Tok == token.TYPE
 			break
 		}
 		// save these, we'll need them when we encounter the actual type spec
-- 
2.43.0


From 20efd96ef06ea18cedb558a4c31e277e83658bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 42/77] fix: accept the name of the value of markers of any
 type as an argument name

---
 pkg/markers/reg.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 742d63c..0ecbcf4 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -151,10 +151,17 @@ func tryAnonLookup(name string, defs map[string]*Definition) *Definition {
 	}
 
 	def := defs[name]
-	if def != nil && def.AnonymousField() && anonName != name && anonName != name+":" {
+	if def != nil && def.AnonymousField() && anonName != name {
 		// the last segment would be the name of an argument, but the definition hasn't got
-		// named ones (an empty one is part of the `+foo:=` spelling, and thus okay).
-		return nil
+		// named ones, except that
+		switch anonName[len(name)+1:] {
+		case "":
+			// an empty one is part of the `+foo:=` spelling, and thus okay
+		case lowerCamelCase(def.FieldNames[""]):
+			// so is the name of the field of a struct mapped to an anonymous marker
+		default:
+			return nil
+		}
 	}
 	return def
 }
-- 
2.43.0


From 01f10659ec4a68ec84d47f057f9de86e232edceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 43/77] fix: don't lose the markers of types with text
 marshalers behind aliases

---
 pkg/crd/schema.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 40e7654..8d39bf9 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -120,7 +120,8 @@ func infoToSchema(ctx *schemaContext) *apiext.JSONSchemaProps {
 			}
 
 		// If the obj implements a text marshaler, encode it as a string.
-		case implements(obj.Type(), textMarshaler):
+		// An alias of a named type refers to that type below, which has got markers of its own.
+		case implements(obj.Type(), textMarshaler) && !isNamedAlias(ctx.info.RawSpec):
 			schema := &apiext.JSONSchemaProps{Type: "string"}
 			applyMarkers(ctx, ctx.info.Markers, schema, ctx.info.RawSpec.Type)
 			if schema.Type != "string" {
@@ -133,6 +134,18 @@ func infoToSchema(ctx *schemaContext) *apiext.JSONSchemaProps {
 	return typeToSchema(ctx, ctx.info.RawSpec.Type)
 }
 
+// isNamedAlias checks if the given type spec declares an alias of a type with a name.
+func isNamedAlias(spec *ast.TypeSpec) bool {
+	if !spec.Assign.IsValid() {
+		return false
+	}
+	switch spec.Type.(type) {
+	case *ast.Ident, *ast.SelectorExpr:
+		return true
+	}
+	return false
+}
+
 type schemaMarkerWithName struct {
 	SchemaMarker SchemaMarker
 	Name         string
-- 
2.43.0


From b3e52857761f4aeb43e939da1ce2aad753f41ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 44/77] fix: keep limits exclusive when conjoining them with
 others

---
 pkg/crd/flatten.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..ad247f9 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -64,6 +64,7 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 	srcRemVal := reflect.Indirect(reflect.ValueOf(&srcRemainder))
 	dstRemainder := apiext.JSONSchemaProps{}
 	dstRemVal := reflect.Indirect(reflect.ValueOf(&dstRemainder))
+	dstExclMax, dstExclMin := dst.ExclusiveMaximum, dst.ExclusiveMinimum
 	hoisted := false
 
 	for i := 0; i < srcVal.NumField(); i++ {
@@ -161,6 +162,16 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 		}
 	}
 
+	// whether limits are exclusive has to stay beside the limits
+	if dstRemainder.Maximum != nil {
+		dstRemainder.ExclusiveMaximum, srcRemainder.ExclusiveMaximum = dstExclMax, src.ExclusiveMaximum
+		dst.ExclusiveMaximum = false
+	}
+	if dstRemainder.Minimum != nil {
+		dstRemainder.ExclusiveMinimum, srcRemainder.ExclusiveMinimum = dstExclMin, src.ExclusiveMinimum
+		dst.ExclusiveMinimum = false
+	}
+
 	if hoisted {
 		dst.AllOf = append(dst.AllOf, dstRemainder, srcRemainder)
 	}
-- 
2.43.0


From 3fc2005d4038eb54aa9077b05f619b01c3e7b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 45/77] fix: don't race with registrations when listing all
 marker definitions

---
 pkg/markers/reg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 0ecbcf4..3f9170f 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -124,6 +124,9 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 
 // AllDefinitions returns all marker definitions known to this registry.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	res := make([]*Definition, 0, len(r.forPkg)+len(r.forType)+len(r.forField))
 	for _, def := range r.forPkg {
 		res = append(res, def)
-- 
2.43.0


From 7ea80c857904db5fdec283b73d2511eeb081aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 46/77] fix: don't race when parsing packages, and don't lose
 errors of their files

---
 pkg/loader/loader.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..cd1c3e0 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -74,6 +74,10 @@ type Package struct {
 
 	imports map[string]*Package
 
+	// syntaxMu makes sure that the package is only parsed once.
+	// It's separate from the embedded mutex, which is held while type-checking.
+	syntaxMu sync.Mutex
+
 	loader *loader
 	sync.Mutex
 }
@@ -101,10 +105,14 @@ func (p *Package) NeedTypesInfo() {
 // NeedSyntax indicates that a parsed AST is needed for this package.
 // Actual ASTs can be accessed via the Syntax field.
 func (p *Package) NeedSyntax() {
+	p.syntaxMu.Lock()
+	defer p.syntaxMu.Unlock()
+
 	if p.Syntax != nil {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,17 +120,18 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+		}
+	}
 	for _, file := range out {
 		if file == nil {
 			return
-- 
2.43.0


From 45fb93c3e7ea7b208c7434636caff478e61e07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 47/77] fix: don't race when type-checking packages in parallel

---
 pkg/loader/loader.go | 6 +++++-
 pkg/loader/refs.go   | 9 ++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index cd1c3e0..16661b3 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -299,7 +299,11 @@ func (l *loader) typeCheck(pkg *Package) {
 	illTyped := len(errs) > 0
 	if !illTyped {
 		for _, importedPkg := range pkg.Imports() {
-			if importedPkg.IllTyped {
+			// like above, there might be a call to check for that package in parallel
+			importedPkg.Lock()
+			importIllTyped := importedPkg.IllTyped
+			importedPkg.Unlock()
+			if importIllTyped {
 				illTyped = true
 				break
 			}
diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index f58a29f..f778436 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -208,11 +208,7 @@ type TypeChecker struct {
 func (c *TypeChecker) Check(root *Package) {
 	c.init()
 
-	// use a sub-checker with the appropriate settings
-	(&TypeChecker{
-		NodeFilters:     c.NodeFilters,
-		checkedPackages: c.checkedPackages,
-	}).check(root)
+	c.check(root)
 }
 
 func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
@@ -231,6 +227,9 @@ func (c *TypeChecker) isNodeInteresting(node ast.Node) bool {
 }
 
 func (c *TypeChecker) init() {
+	c.Lock()
+	defer c.Unlock()
+
 	if c.checkedPackages == nil {
 		c.checkedPackages = make(map[*Package]struct{})
 	}
-- 
2.43.0


From e95aae94de5fa843981f4635ad72b0919e7119b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 48/77] fix: list webhooks in the same order whatever the order
 of the packages

---
 pkg/webhook/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index f4fc4c1..ce427d0 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -33,6 +33,7 @@ import (
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apimachinery/pkg/util/sets"
 	"sigs.k8s.io/controller-tools/pkg/genall"
+	"sigs.k8s.io/controller-tools/pkg/loader"
 	"sigs.k8s.io/controller-tools/pkg/markers"
 )
 
@@ -457,7 +458,13 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 	var mutatingWebhookCfgs admissionregv1.MutatingWebhookConfiguration
 	var validatingWebhookCfgs admissionregv1.ValidatingWebhookConfiguration
 
-	for _, root := range ctx.Roots {
+	// the order of the webhooks must not depend on the order in which the packages were given
+	roots := append([]*loader.Package(nil), ctx.Roots...)
+	sort.SliceStable(roots, func(i, j int) bool {
+		return roots[i].PkgPath < roots[j].PkgPath
+	})
+
+	for _, root := range roots {
 		markerSet, err := markers.PackageMarkers(ctx.Collector, root)
 		if err != nil {
 			root.AddError(err)
-- 
2.43.0


From 9aeb585b62446f7db5e0ab2b7b8b7734c0a0b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 49/77] fix: write patched manifests in the same order on every
 run

---
 pkg/schemapatcher/gen.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..bc97efe 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"gopkg.in/yaml.v3"
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
@@ -183,7 +184,15 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	for _, set := range partialCRDSets {
+	groupKinds := make([]schema.GroupKind, 0, len(partialCRDSets))
+	for groupKind := range partialCRDSets {
+		groupKinds = append(groupKinds, groupKind)
+	}
+	sort.Slice(groupKinds, func(i, j int) bool {
+		return groupKinds[i].String() < groupKinds[j].String()
+	})
+	for _, groupKind := range groupKinds {
+		set := partialCRDSets[groupKind]
 		// We assume all CRD versions came from different files, since this
 		// is how controller-gen works.  If they came from the same file,
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
-- 
2.43.0


From ecfd357a552593bf7cc48044a46b4d1d9d17fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 50/77] fix: report errors of closing outputs

---
 pkg/deepcopy/gen.go      | 6 +++++-
 pkg/genall/genall.go     | 8 ++++++--
 pkg/schemapatcher/gen.go | 8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index cd20c95..e219b05 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -292,7 +292,11 @@ func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []by
 		root.AddError(err)
 		return
 	}
-	defer outputFile.Close()
+	defer func() {
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
+	}()
 	n, err := outputFile.Write(outBytes)
 	if err != nil {
 		root.AddError(err)
diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index b6f3740..b3f2729 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -141,12 +141,16 @@ func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
 // WriteYAML writes the given objects out, serialized as YAML, using the
 // context's OutputRule.  Objects are written as separate documents, separated
 // from each other by `---` (as per the YAML spec).
-func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) error {
+func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) (result error) {
 	out, err := g.Open(nil, itemPath)
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	defer func() {
+		if err := out.Close(); err != nil && result == nil {
+			result = err
+		}
+	}()
 
 	_, err = out.Write([]byte(headerText))
 	if err != nil {
diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index bc97efe..ae4a991 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -198,12 +198,16 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
 		for _, crd := range set.CRDVersions {
-			if err := func() error {
+			if err := func() (result error) {
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
 				if err != nil {
 					return err
 				}
-				defer outWriter.Close()
+				defer func() {
+					if err := outWriter.Close(); err != nil && result == nil {
+						result = err
+					}
+				}()
 
 				enc := yaml.NewEncoder(outWriter)
 				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-- 
2.43.0


From 09e08e7f17019e0d7b7c7342405a354fd7fa5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 51/77] fix: report unparseable markers in the apply
 configuration generator

---
 pkg/applyconfiguration/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 73c727a..84c01b2 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -169,7 +169,11 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, _ := enabledOnPackage(ctx.Collector, root)
+	enabled, err := enabledOnPackage(ctx.Collector, root)
+	if err != nil {
+		root.AddError(err)
+		return nil
+	}
 	if !enabled {
 		return nil
 	}
-- 
2.43.0


From 53eb283915af7defa8a5171d6b2c17d0f688d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 52/77] fix: don't look for kinds in every package of their
 group when patching schemas

---
 pkg/schemapatcher/gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index ae4a991..071f336 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -128,6 +128,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if parser.Types[typeIdent] == nil {
+				// not every package of the group has every kind
+				continue
+			}
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From 6766800e0ea718d94f02041916d29282de84fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 53/77] fix: report versions without a name instead of
 panicking when patching schemas

---
 pkg/schemapatcher/gen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 071f336..bfd76d1 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -318,7 +318,13 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
+		nameNode, found, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !found {
+			return fmt.Errorf("missing version name at spec.versions[%d]", i)
+		}
 		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
-- 
2.43.0


From 167b6e9c7597228cf40da21776ef817d6d23275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 54/77] fix: quote strings that YAML 1.1 parsers misread when
 patching schemas

---
 pkg/schemapatcher/gen.go                   |  1 +
 pkg/schemapatcher/internal/yaml/convert.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index bfd76d1..0775477 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -344,6 +344,7 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 			}
 			schemaNodeTree = schemaNodeTree.Content[0] // get rid of the document node
 			yamlop.SetStyle(schemaNodeTree, 0)         // clear the style so it defaults to an auto-chosen one
+			yamlop.QuoteAmbiguousStrings(schemaNodeTree)
 			if err := yamlop.SetNode(verNode, *schemaNodeTree, "schema", "openAPIV3Schema"); err != nil {
 				return fmt.Errorf("spec.versions[%d]: %w", i, err)
 			}
diff --git a/pkg/schemapatcher/internal/yaml/convert.go b/pkg/schemapatcher/internal/yaml/convert.go
index b0ac001..ff6c12d 100644
--- a/pkg/schemapatcher/internal/yaml/convert.go
+++ b/pkg/schemapatcher/internal/yaml/convert.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 
 	"gopkg.in/yaml.v3"
+	kyaml "sigs.k8s.io/yaml"
 )
 
 // ToYAML converts some object that serializes to JSON into a YAML node tree.
@@ -59,3 +60,22 @@ func SetStyle(root *yaml.Node, style yaml.Style) {
 		node.Style = style
 	})
 }
+
+// QuoteAmbiguousStrings quotes all strings in the given node tree that YAML 1.1
+// parsers, such as the ones in Kubernetes, would take for something else if they
+// were plain (like "on", "n", or "1:30").
+func QuoteAmbiguousStrings(root *yaml.Node) {
+	changeAll(root, func(node *yaml.Node) {
+		if node.Kind != yaml.ScalarNode || node.ShortTag() != "!!str" {
+			return
+		}
+		var plain interface{}
+		if err := kyaml.Unmarshal([]byte(node.Value), &plain); err != nil {
+			return
+		}
+		switch plain.(type) {
+		case bool, float64:
+			node.Style = yaml.DoubleQuotedStyle
+		}
+	})
+}
-- 
2.43.0


From f5d3150cd1f597ce3e4157d7b61d1180cae1d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 55/77] fix: keep all documents of manifests when patching
 schemas

---
 pkg/schemapatcher/gen.go | 205 ++++++++++++++++++++++-----------------
 1 file changed, 118 insertions(+), 87 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 0775477..94c8f19 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,10 +17,12 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
-	"sort"
 
 	"gopkg.in/yaml.v3"
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
@@ -107,7 +109,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// load existing CRD manifests with group-kind and versions
-	partialCRDSets, err := crdsFromDirectory(ctx, g.ManifestsPath)
+	partialCRDSets, manifests, err := crdsFromDirectory(ctx, g.ManifestsPath)
 	if err != nil {
 		return err
 	}
@@ -188,46 +190,45 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	groupKinds := make([]schema.GroupKind, 0, len(partialCRDSets))
-	for groupKind := range partialCRDSets {
-		groupKinds = append(groupKinds, groupKind)
-	}
-	sort.Slice(groupKinds, func(i, j int) bool {
-		return groupKinds[i].String() < groupKinds[j].String()
-	})
-	for _, groupKind := range groupKinds {
-		set := partialCRDSets[groupKind]
-		// We assume all CRD versions came from different files, since this
-		// is how controller-gen works.  If they came from the same file,
-		// it'd be non-sensical, since you couldn't reasonably use kubectl
-		// with them against older servers.
-		for _, crd := range set.CRDVersions {
-			if err := func() (result error) {
-				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
-				if err != nil {
+	for _, manifest := range manifests {
+		if err := func() (result error) {
+			outWriter, err := ctx.OutputRule.Open(nil, manifest.FileName)
+			if err != nil {
+				return err
+			}
+			defer func() {
+				if err := outWriter.Close(); err != nil && result == nil {
+					result = err
+				}
+			}()
+
+			enc := yaml.NewEncoder(outWriter)
+			// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
+			// so be compatible with everything else in k8s and choose 2.
+			enc.SetIndent(2)
+
+			for _, doc := range manifest.Docs {
+				if err := enc.Encode(doc); err != nil {
 					return err
 				}
-				defer func() {
-					if err := outWriter.Close(); err != nil && result == nil {
-						result = err
-					}
-				}()
-
-				enc := yaml.NewEncoder(outWriter)
-				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-				// so be compatible with everything else in k8s and choose 2.
-				enc.SetIndent(2)
-
-				return enc.Encode(crd.Yaml)
-			}(); err != nil {
-				return err
 			}
+			return enc.Close()
+		}(); err != nil {
+			return err
 		}
 	}
 
 	return nil
 }
 
+// manifestFile is a YAML file that contains at least one CRD.
+type manifestFile struct {
+	// FileName is the source name of the file.
+	FileName string
+	// Docs are all of the YAML documents in the file, in order.
+	Docs []*yaml.Node
+}
+
 // partialCRDSet represents a set of CRDs of different apiext versions
 // (v1beta1.CRD vs v1.CRD) that represent the same GroupKind.
 //
@@ -251,13 +252,6 @@ type partialCRDSet struct {
 type partialCRD struct {
 	// Yaml is the raw YAML structure of the CRD.
 	Yaml *yaml.Node
-	// FileName is the source name of the file that this was read from.
-	//
-	// This isn't on partialCRDSet because we could have different CRD versions
-	// stored in the same file (like controller-tools does by default) or in
-	// different files.
-	FileName string
-
 	// CRDVersion is the version of the CRD object itself, from
 	// apiextensions (currently apiextensions/v1 or apiextensions/v1beta1).
 	CRDVersion string
@@ -355,12 +349,14 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 
 // crdsFromDirectory returns loads all CRDs from the given directory in a
 // manner that preserves ordering, comments, etc in order to make patching
-// minimally invasive.  Returned CRDs are mapped by group-kind.
-func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.GroupKind]*partialCRDSet, error) {
+// minimally invasive.  Returned CRDs are mapped by group-kind, and come with
+// the files that they're from, in the order of their names.
+func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.GroupKind]*partialCRDSet, []manifestFile, error) {
 	res := map[schema.GroupKind]*partialCRDSet{}
+	var manifests []manifestFile
 	dirEntries, err := os.ReadDir(dir)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	for _, fileInfo := range dirEntries {
 		// find all files that are YAML
@@ -370,63 +366,98 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 
 		rawContent, err := ctx.ReadFile(filepath.Join(dir, fileInfo.Name()))
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		// NB(directxman12): we could use the universal deserializer for this, but it's
-		// really pretty clunky, and the alternative is actually kinda easier to understand
-
-		// ensure that this is a CRD
-		var typeMeta metav1.TypeMeta
-		if err := kyaml.Unmarshal(rawContent, &typeMeta); err != nil {
+		// unmarshal in a manner that preserves ordering, etc
+		docs, err := splitDocuments(rawContent)
+		if err != nil {
 			continue
 		}
 
-		if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
-			// If there's no API version this file probably isn't a CRD.
-			// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
-			continue
+		hasCRD := false
+		for _, doc := range docs {
+			isCRD, err := addCRD(res, doc)
+			if err != nil {
+				return nil, nil, fmt.Errorf("load %q: %w", filepath.Join(dir, fileInfo.Name()), err)
+			}
+			hasCRD = hasCRD || isCRD
 		}
-
-		if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
-			return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
+		if hasCRD {
+			manifests = append(manifests, manifestFile{FileName: fileInfo.Name(), Docs: docs})
 		}
+	}
+	return res, manifests, nil
+}
 
-		// collect the group-kind and versions from the actual structured form
-		var actualCRD crdIsh
-		if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
-			continue
-		}
-		groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
-		versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
-		for _, ver := range actualCRD.Spec.Versions {
-			versions[ver.Name] = struct{}{}
+// splitDocuments parses all of the YAML documents in the given file.
+func splitDocuments(rawContent []byte) ([]*yaml.Node, error) {
+	var docs []*yaml.Node
+	dec := yaml.NewDecoder(bytes.NewReader(rawContent))
+	for {
+		var doc yaml.Node
+		if err := dec.Decode(&doc); errors.Is(err, io.EOF) {
+			return docs, nil
+		} else if err != nil {
+			return nil, err
 		}
+		docs = append(docs, &doc)
+	}
+}
 
-		// then actually unmarshal in a manner that preserves ordering, etc
-		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
-			continue
-		}
+// addCRD adds the given YAML document to the given CRDs, if it's one, and returns whether it is.
+func addCRD(res map[schema.GroupKind]*partialCRDSet, doc *yaml.Node) (bool, error) {
+	rawContent, err := yaml.Marshal(doc)
+	if err != nil {
+		return false, nil
+	}
 
-		// then store this CRDVersion of the CRD in a set, populating the set if necessary
-		if res[groupKind] == nil {
-			res[groupKind] = &partialCRDSet{
-				GroupKind:   groupKind,
-				NewSchemata: make(map[string]apiext.JSONSchemaProps),
-				Versions:    make(map[string]struct{}),
-			}
-		}
-		for ver := range versions {
-			res[groupKind].Versions[ver] = struct{}{}
+	// NB(directxman12): we could use the universal deserializer for this, but it's
+	// really pretty clunky, and the alternative is actually kinda easier to understand
+
+	// ensure that this is a CRD
+	var typeMeta metav1.TypeMeta
+	if err := kyaml.Unmarshal(rawContent, &typeMeta); err != nil {
+		return false, nil
+	}
+
+	if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
+		// If there's no API version this file probably isn't a CRD.
+		// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
+		return false, nil
+	}
+
+	if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
+		return false, fmt.Errorf("apiVersion %q not supported", typeMeta.APIVersion)
+	}
+
+	// collect the group-kind and versions from the actual structured form
+	var actualCRD crdIsh
+	if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
+		return false, nil
+	}
+	groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
+	versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
+	for _, ver := range actualCRD.Spec.Versions {
+		versions[ver.Name] = struct{}{}
+	}
+
+	// then store this CRDVersion of the CRD in a set, populating the set if necessary
+	if res[groupKind] == nil {
+		res[groupKind] = &partialCRDSet{
+			GroupKind:   groupKind,
+			NewSchemata: make(map[string]apiext.JSONSchemaProps),
+			Versions:    make(map[string]struct{}),
 		}
-		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
-			Yaml:       &yamlNodeTree,
-			FileName:   fileInfo.Name(),
-			CRDVersion: typeMeta.APIVersion,
-		})
 	}
-	return res, nil
+	for ver := range versions {
+		res[groupKind].Versions[ver] = struct{}{}
+	}
+	res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
+		Yaml:       doc,
+		CRDVersion: typeMeta.APIVersion,
+	})
+	return true, nil
 }
 
 // isSupportedAPIExtGroupVer checks if the given string-form group-version
-- 
2.43.0


From 275de6dda664d70d175028bfbf235e26021efbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 56/77] fix: list markers of several targets in the same order
 on every run

---
 pkg/genall/help/sort.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/help/sort.go b/pkg/genall/help/sort.go
index 53c923e..1d77c4d 100644
--- a/pkg/genall/help/sort.go
+++ b/pkg/genall/help/sort.go
@@ -47,7 +47,11 @@ func (sortByCategory) Group(_ *markers.Definition, help *markers.DefinitionHelp)
 	return help.Category
 }
 func (sortByCategory) Less(i, j *markers.Definition) bool {
-	return i.Name < j.Name
+	if i.Name != j.Name {
+		return i.Name < j.Name
+	}
+	// the same marker may describe different kinds of targets
+	return i.Target < j.Target
 }
 
 type optionsSort struct{}
-- 
2.43.0


From 054469adceeab108f49176313e5e5f015d5ebbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 57/77] fix: show the types of number and map arguments in the
 help

---
 pkg/genall/help/types.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..a52ac36 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -33,19 +33,24 @@ type DetailedHelp struct {
 
 // Argument is the type data for a marker argument.
 type Argument struct {
-	// Type is the data type of the argument (string, bool, int, slice, any, raw, invalid)
+	// Type is the data type of the argument (string, bool, int, number, slice, map, any, raw, invalid)
 	Type string `json:"type"`
 	// Optional marks this argument as optional.
 	Optional bool `json:"optional"`
-	// ItemType contains the type of the slice item, if this is a slice
+	// ItemType contains the type of the slice item or map value, if this is a slice or map
 	ItemType *Argument `json:"itemType,omitempty"`
 }
 
 func (a Argument) typeString(out *strings.Builder) {
-	if a.Type == "slice" {
+	switch a.Type {
+	case "slice":
 		out.WriteString("[]")
 		a.ItemType.typeString(out)
 		return
+	case "map":
+		out.WriteString("map[string]")
+		a.ItemType.typeString(out)
+		return
 	}
 
 	out.WriteString(a.Type)
@@ -120,6 +125,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 	switch argRaw.Type {
 	case markers.IntType:
 		res.Type = "int"
+	case markers.NumberType:
+		res.Type = "number"
 	case markers.StringType:
 		res.Type = "string"
 	case markers.BoolType:
@@ -128,6 +135,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 		res.Type = "any"
 	case markers.SliceType:
 		res.Type = "slice"
+	case markers.MapType:
+		res.Type = "map"
 	case markers.RawType:
 		res.Type = "raw"
 	case markers.InvalidType:
-- 
2.43.0


From 4d82c7c4714d058c95b65674def41a69ab6d580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 58/77] fix: show the right help for the webhook configuration
 marker

---
 pkg/webhook/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index ce427d0..a4ebda7 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -446,7 +446,7 @@ func (Generator) RegisterMarkers(into *markers.Registry) error {
 		return err
 	}
 	into.AddHelp(ConfigDefinition, Config{}.Help())
-	into.AddHelp(WebhookConfigDefinition, Config{}.Help())
+	into.AddHelp(WebhookConfigDefinition, WebhookConfig{}.Help())
 	return nil
 }
 
-- 
2.43.0


From bd95eafa5589ae83d502cc42af64a34a756c5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 59/77] fix: report errors of closing generated help

---
 cmd/helpgen/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index c12ed69..23c2fd8 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -173,14 +173,15 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			root.AddError(err)
 			continue
 		}
-		defer outputFile.Close()
 		n, err := outputFile.Write(outBytes)
+		if err == nil && n < len(outBytes) {
+			err = io.ErrShortWrite
+		}
+		if closeErr := outputFile.Close(); err == nil {
+			err = closeErr
+		}
 		if err != nil {
 			root.AddError(err)
-			continue
-		}
-		if n < len(outBytes) {
-			root.AddError(io.ErrShortWrite)
 		}
 	}
 	return nil
-- 
2.43.0


From e2797be9d4db79e1ace85f15e3dccc4a860b349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 60/77] fix: document the webhook configuration marker so that
 the help lists it

---
 pkg/webhook/parser.go                  | 3 ++-
 pkg/webhook/zz_generated.markerhelp.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index a4ebda7..2c43455 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -58,8 +58,9 @@ func supportedWebhookVersions() []string {
 	return []string{defaultWebhookVersion}
 }
 
-// +controllertools:marker:generateHelp
+// +controllertools:marker:generateHelp:category=Webhook
 
+// WebhookConfig specifies how a webhook configuration object should be generated.
 type WebhookConfig struct {
 	// Mutating marks this as a mutating webhook (it's validating only if false)
 	//
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 53ce42f..8fd724c 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -130,9 +130,9 @@ func (Generator) Help() *markers.DefinitionHelp {
 
 func (WebhookConfig) Help() *markers.DefinitionHelp {
 	return &markers.DefinitionHelp{
-		Category: "",
+		Category: "Webhook",
 		DetailedHelp: markers.DetailedHelp{
-			Summary: "",
+			Summary: "specifies how a webhook configuration object should be generated.",
 			Details: "",
 		},
 		FieldHelp: map[string]markers.DetailedHelp{
-- 
2.43.0


From 30e82ef31c6211f2c02503565eff750b592e7c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 61/77] fix: applyconfiguration: keep types without object
 metadata that are enabled by a marker

The upstream generator leaves out genclient types without metadata, also where
other types refer to them, so the generated code did not compile.
---
 pkg/applyconfiguration/gen.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 84c01b2..9f8521f 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -29,6 +29,7 @@ import (
 	"k8s.io/gengo/v2"
 	"k8s.io/gengo/v2/generator"
 	"k8s.io/gengo/v2/parser"
+	"k8s.io/gengo/v2/types"
 
 	kerrors "k8s.io/apimachinery/pkg/util/errors"
 	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
@@ -46,6 +47,8 @@ var (
 	enableTypeMarker = markers.Must(markers.MakeDefinition("kubebuilder:ac:generate", markers.DescribesType, false))
 )
 
+var objectMetaName = types.Name{Package: "k8s.io/apimachinery/pkg/apis/meta/v1", Name: "ObjectMeta"}
+
 const defaultOutputPackage = "applyconfiguration"
 
 // +controllertools:marker:generateHelp
@@ -115,6 +118,16 @@ func outputPkg(col *markers.Collector, pkg *loader.Package) string {
 	return defaultOutputPackage
 }
 
+// hasObjectMeta says whether the type embeds ObjectMeta.
+func hasObjectMeta(typ *types.Type) bool {
+	for _, member := range typ.Members {
+		if member.Embedded && member.Type.Name == objectMetaName {
+			return true
+		}
+	}
+	return false
+}
+
 func isCRD(info *markers.TypeInfo) bool {
 	objectEnabled := info.Markers.Get(isCRDMarker.Name)
 	return objectEnabled != nil
@@ -221,6 +234,12 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 			return
 		}
 
+		// Without object metadata, the type isn't one that can be applied by itself,
+		// and the generator would leave it out even where other types refer to it.
+		if !hasObjectMeta(typ) {
+			return
+		}
+
 		comments := sets.NewString(typ.CommentLines...)
 		comments.Insert(typ.SecondClosestCommentLines...)
 
-- 
2.43.0


From fc069a3f3be302823d46bd56f9168bcd65da130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 62/77] fix: applyconfiguration: enable single types in
 packages that are not enabled

That is what the help of the marker says it is for.
---
 pkg/applyconfiguration/gen.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 9f8521f..51c2811 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -96,11 +96,12 @@ func enabledOnPackage(col *markers.Collector, pkg *loader.Package) (bool, error)
 	return false, nil
 }
 
-func enabledOnType(info *markers.TypeInfo) bool {
+// enabledOnType says whether the type is enabled, by itself or together with its package.
+func enabledOnType(pkgEnabled bool, info *markers.TypeInfo) bool {
 	if typeMarker := info.Markers.Get(enableTypeMarker.Name); typeMarker != nil {
 		return typeMarker.(bool)
 	}
-	return isCRD(info)
+	return pkgEnabled && isCRD(info)
 }
 
 func outputPkg(col *markers.Collector, pkg *loader.Package) string {
@@ -182,15 +183,22 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, err := enabledOnPackage(ctx.Collector, root)
+	pkgEnabled, err := enabledOnPackage(ctx.Collector, root)
 	if err != nil {
 		root.AddError(err)
 		return nil
 	}
-	if !enabled {
+	if len(root.GoFiles) == 0 {
 		return nil
 	}
-	if len(root.GoFiles) == 0 {
+	// Types may be enabled one by one in a package that isn't.
+	enabled := pkgEnabled
+	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
+		enabled = enabled || enabledOnType(pkgEnabled, info)
+	}); err != nil {
+		return err
+	}
+	if !enabled {
 		return nil
 	}
 
@@ -222,10 +230,12 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		return fmt.Errorf("package %q not found in universe", root.Name)
 	}
 
+	hasRoots := false
+
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
-		if !enabledOnType(info) {
+		if !enabledOnType(pkgEnabled, info) {
 			return
 		}
 
@@ -240,6 +250,8 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 			return
 		}
 
+		hasRoots = true
+
 		comments := sets.NewString(typ.CommentLines...)
 		comments.Insert(typ.SecondClosestCommentLines...)
 
@@ -250,6 +262,10 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		return err
 	}
 
+	if !pkgEnabled && !hasRoots {
+		return nil
+	}
+
 	targets := generators.GetTargets(c, arguments)
 	if err := c.ExecuteTargets(targets); err != nil {
 		return fmt.Errorf("failed executing generator: %w", err)
-- 
2.43.0


From 5c3b58a573237c9645df3f4b0f4c93970f7c9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 63/77] fix: applyconfiguration: fail on field types that
 cannot be resolved

The run succeeded, and wrote code that does not compile.
---
 pkg/applyconfiguration/gen.go | 42 +++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 51c2811..f3b580a 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -21,6 +21,7 @@ import (
 	"go/ast"
 	"os"
 	"path/filepath"
+	"reflect"
 
 	"k8s.io/apimachinery/pkg/util/sets"
 	"k8s.io/code-generator/cmd/applyconfiguration-gen/args"
@@ -129,6 +130,39 @@ func hasObjectMeta(typ *types.Type) bool {
 	return false
 }
 
+// findUnresolved looks for a type that could not be resolved, in the given type and in those of the
+// package's types that it refers to, and names the field it belongs to. There's no way to generate
+// code for such a field.
+func findUnresolved(typ *types.Type, pkgPath string, seen map[*types.Type]bool) (field string, found bool) {
+	if typ.Kind == types.Unsupported {
+		return "", true
+	}
+	if seen[typ] || typ.Name.Package != "" && typ.Name.Package != pkgPath {
+		return "", false
+	}
+	seen[typ] = true
+	for _, part := range []*types.Type{typ.Elem, typ.Key, typ.Underlying} {
+		if part == nil {
+			continue
+		}
+		if field, found := findUnresolved(part, pkgPath, seen); found {
+			return field, true
+		}
+	}
+	for _, member := range typ.Members {
+		if tag := reflect.StructTag(member.Tags).Get("json"); tag == "" || tag == "-" {
+			continue
+		}
+		if field, found := findUnresolved(member.Type, pkgPath, seen); found {
+			if field == "" {
+				field = typ.Name.Name + "." + member.Name
+			}
+			return field, true
+		}
+	}
+	return "", false
+}
+
 func isCRD(info *markers.TypeInfo) bool {
 	objectEnabled := info.Markers.Get(isCRDMarker.Name)
 	return objectEnabled != nil
@@ -230,7 +264,7 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		return fmt.Errorf("package %q not found in universe", root.Name)
 	}
 
-	hasRoots := false
+	hasRoots, unresolved := false, false
 
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
@@ -251,6 +285,10 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		}
 
 		hasRoots = true
+		if field, found := findUnresolved(typ, root.PkgPath, map[*types.Type]bool{}); found {
+			root.AddError(loader.ErrFromNode(fmt.Errorf("unknown type of field %s", field), info.RawSpec))
+			unresolved = true
+		}
 
 		comments := sets.NewString(typ.CommentLines...)
 		comments.Insert(typ.SecondClosestCommentLines...)
@@ -262,7 +300,7 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 		return err
 	}
 
-	if !pkgEnabled && !hasRoots {
+	if unresolved || !pkgEnabled && !hasRoots {
 		return nil
 	}
 
-- 
2.43.0


From 512e3c06977e21bb6f1b2c9d758fa6ff5c8a834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 64/77] fix: type-scaffold: reject kinds that are not valid
 names

A kind that starts with a digit gave code that does not compile, one with
other than ASCII letters a CRD that no API server accepts.
---
 pkg/typescaffold/resource.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index 7024a7c..a3f5b56 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -21,6 +21,7 @@ import (
 	"strings"
 
 	"github.com/gobuffalo/flect"
+	"k8s.io/apimachinery/pkg/util/validation"
 )
 
 // Resource contains the information required to scaffold files for a resource.
@@ -49,5 +50,10 @@ func (r *Resource) Validate() error {
 		return fmt.Errorf("kind must be CamelCase (expected %s was %s)", flect.Pascalize(r.Kind), r.Kind)
 	}
 
+	// Kinds become Go types, and in lower case both kinds and resources have to be DNS labels.
+	if errs := validation.IsDNS1035Label(strings.ToLower(r.Kind)); len(errs) > 0 {
+		return fmt.Errorf("invalid kind %q: in lower case, %s", r.Kind, strings.Join(errs, ", "))
+	}
+
 	return nil
 }
-- 
2.43.0


From 6ea44a03404d8f3342867560d80f5c92757698fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:10 +0000
Subject: [PATCH 65/77] fix: type-scaffold: let the resource name and the scope
 take effect

The flags changed nothing but a comment: the CRDs generated from the types
had the default plural and were namespaced.
---
 pkg/typescaffold/resource.go | 19 +++++++++++++++++++
 pkg/typescaffold/scaffold.go |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index a3f5b56..d0988bc 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -54,6 +54,25 @@ func (r *Resource) Validate() error {
 	if errs := validation.IsDNS1035Label(strings.ToLower(r.Kind)); len(errs) > 0 {
 		return fmt.Errorf("invalid kind %q: in lower case, %s", r.Kind, strings.Join(errs, ", "))
 	}
+	if errs := validation.IsDNS1035Label(r.Resource); len(errs) > 0 {
+		return fmt.Errorf("invalid resource %q: %s", r.Resource, strings.Join(errs, ", "))
+	}
 
 	return nil
 }
+
+// Marker gives the marker that says what the generators would not assume by themselves
+// about the resource, or nothing.
+func (r *Resource) Marker() string {
+	var args []string
+	if r.Resource != "" && r.Resource != strings.ToLower(flect.Pluralize(r.Kind)) {
+		args = append(args, "path="+r.Resource)
+	}
+	if !r.Namespaced {
+		args = append(args, "scope=Cluster")
+	}
+	if len(args) == 0 {
+		return ""
+	}
+	return "+kubebuilder:resource:" + strings.Join(args, ",")
+}
diff --git a/pkg/typescaffold/scaffold.go b/pkg/typescaffold/scaffold.go
index f3640b9..effdc60 100644
--- a/pkg/typescaffold/scaffold.go
+++ b/pkg/typescaffold/scaffold.go
@@ -54,6 +54,9 @@ type {{.Resource.Kind}}Status struct {
 
 // {{.Resource.Kind}} is the Schema for the {{ .Resource.Resource }} API
 // +k8s:openapi-gen=true
+{{- with .Resource.Marker }}
+// {{ . }}
+{{- end }}
 type {{.Resource.Kind}} struct {
 	metav1.TypeMeta   ` + "`" + `json:",inline"` + "`" + `
 	metav1.ObjectMeta ` + "`" + `json:"metadata,omitempty"` + "`" + `
-- 
2.43.0


From c988ad34414383d3cbaf57e2c581eb24cb273b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 66/77] fix: keep RBAC rules of the core group apart from rules
 without groups

---
 pkg/rbac/parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 5982478..1bbee45 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -25,6 +25,7 @@ package rbac
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	rbacv1 "k8s.io/api/rbac/v1"
@@ -85,13 +86,23 @@ func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].Str
 func (r *Rule) key() ruleKey {
 	r.normalize()
 	return ruleKey{
-		Groups:        strings.Join(r.Groups, "&"),
-		Resources:     strings.Join(r.Resources, "&"),
-		ResourceNames: strings.Join(r.ResourceNames, "&"),
-		URLs:          strings.Join(r.URLs, "&"),
+		Groups:        joinKey(r.Groups),
+		Resources:     joinKey(r.Resources),
+		ResourceNames: joinKey(r.ResourceNames),
+		URLs:          joinKey(r.URLs),
 	}
 }
 
+// joinKey joins the given strings such that different lists never look the same.
+// In particular, only the core group ("") differs from no groups at all.
+func joinKey(strs []string) string {
+	quoted := make([]string, 0, len(strs))
+	for _, str := range strs {
+		quoted = append(quoted, strconv.Quote(str))
+	}
+	return strings.Join(quoted, "&")
+}
+
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
 	key := r.key()
 	verbs := strings.Join(r.Verbs, "&")
-- 
2.43.0


From 4a55a183cd1fc9fa3c02da49ac719bc08bbd40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:19 +0000
Subject: [PATCH 67/77] fix: treat omitzero fields as optional like omitempty
 ones

---
 pkg/crd/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 8d39bf9..f7a6b41 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -466,7 +466,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			switch opt {
 			case "inline":
 				inline = true
-			case "omitempty":
+			case "omitempty", "omitzero":
 				omitEmpty = true
 			}
 		}
@@ -501,7 +501,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		// if this package isn't set to optional default...
 		case defaultMode == "required":
-			// ...everything that's not omitempty is required
+			// ...everything that's not omitempty (or omitzero) is required
 			if !omitEmpty {
 				props.Required = append(props.Required, fieldName)
 			}
-- 
2.43.0


From 8d5e01f110cd20a4eee72ca2d32b583e8b60c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:47 +0000
Subject: [PATCH 68/77] fix: name instances of generic types properly in
 deepcopy code, refuse generic types

---
 pkg/deepcopy/traverse.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 0fcaffd..b8d71eb 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -191,11 +191,14 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// NB(directxman12): typeInfo.String gets us most of the way there,
 	// but fails (for us) on named imports, since it uses the full package path.
 	var typeName *types.TypeName
+	var typeArgs *types.TypeList
 	switch typeInfo := n.typeInfo.(type) {
 	case *types.Alias:
 		typeName = typeInfo.Obj()
+		typeArgs = typeInfo.TypeArgs()
 	case *types.Named:
 		typeName = typeInfo.Obj()
+		typeArgs = typeInfo.TypeArgs()
 	case *types.Basic:
 		return typeInfo.String()
 	case *types.Pointer:
@@ -212,18 +215,28 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 		return typeInfo.String()
 	}
 
+	// instantiated generic types need their arguments, too
+	var argsSyntax string
+	if typeArgs.Len() > 0 {
+		args := make([]string, 0, typeArgs.Len())
+		for i := 0; i < typeArgs.Len(); i++ {
+			args = append(args, (&namingInfo{typeInfo: typeArgs.At(i)}).Syntax(basePkg, imports))
+		}
+		argsSyntax = "[" + strings.Join(args, ", ") + "]"
+	}
+
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
 	if otherPkg == nil || otherPkg == basePkg.Types {
 		// predeclared (e.g. error), or local import
-		return typeName.Name()
+		return typeName.Name() + argsSyntax
 	}
 	if !typeName.Exported() {
 		basePkg.AddError(fmt.Errorf("name requested for unexported type of another package: %s", typeName))
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-	return alias + "." + typeName.Name()
+	return alias + "." + typeName.Name() + argsSyntax
 }
 
 // copyMethodMakers makes DeepCopy (and related) methods for Go types,
@@ -262,6 +275,14 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 	hasManualDeepCopyInto := hasDeepCopyIntoMethod(root, typeInfo)
 	hasManualDeepCopy, deepCopyOnPtr := hasDeepCopyMethod(root, typeInfo)
 
+	needsDeepCopyObject := genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo)
+
+	// we don't know how to copy values of type parameters
+	if info.RawSpec.TypeParams != nil && (!hasManualDeepCopyInto || !hasManualDeepCopy || needsDeepCopyObject) {
+		root.AddError(loader.ErrFromNode(fmt.Errorf("cannot generate methods for generic type: %s", info.Name), info.RawSpec))
+		return
+	}
+
 	// only generate each method if it hasn't been implemented.
 	if !hasManualDeepCopyInto {
 		c.Line("// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.")
@@ -300,7 +321,7 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 	}
 
 	// maybe also generate DeepCopyObject, if asked.
-	if genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo) {
+	if needsDeepCopyObject {
 		// we always need runtime.Object for DeepCopyObject
 		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
 		switch {
@@ -739,10 +760,10 @@ func hasDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) (bool, bool) {
 			return false, false
 		}
 
-		if recvAsPtr.Elem() != resultPtr.Elem() {
+		if !types.Identical(recvAsPtr.Elem(), resultPtr.Elem()) {
 			return false, false
 		}
-	} else if methodSig.Results().At(0).Type() != methodSig.Recv().Type() {
+	} else if !types.Identical(methodSig.Results().At(0).Type(), methodSig.Recv().Type()) {
 		return false, false
 	}
 
@@ -777,9 +798,9 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 		// have the same underlying type, for some reason (probably that
 		// LookupFieldOrMethod calls types.NewPointer for us), so check the
 		// underlying values.
-		return paramPtr.Elem() == recvPtr.Elem()
+		return types.Identical(paramPtr.Elem(), recvPtr.Elem())
 	}
-	return methodSig.Recv().Type() == paramPtr.Elem()
+	return types.Identical(methodSig.Recv().Type(), paramPtr.Elem())
 }
 
 // hasDeepCopyObjectMethod checks if this type itself has a manual DeepCopyObject method.
-- 
2.43.0


From 47701d6ad694cfb852967daf65eddaa693437cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:14 +0000
Subject: [PATCH 69/77] fix: write code next to the sources of packages that
 use cgo, not into the build cache

---
 pkg/genall/output.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/genall/output.go b/pkg/genall/output.go
index 9531e82..d5d7984 100644
--- a/pkg/genall/output.go
+++ b/pkg/genall/output.go
@@ -150,10 +150,15 @@ func (o OutputArtifacts) Open(pkg *loader.Package, itemPath string) (io.WriteClo
 		return o.Code.Open(pkg, itemPath)
 	}
 
-	if len(pkg.CompiledGoFiles) == 0 {
+	// compiled files can be elsewhere (e.g. in the build cache, when using cgo), so prefer the sources
+	goFiles := pkg.GoFiles
+	if len(goFiles) == 0 {
+		goFiles = pkg.CompiledGoFiles
+	}
+	if len(goFiles) == 0 {
 		return nil, fmt.Errorf("cannot output to a package with no path on disk")
 	}
-	outDir := filepath.Dir(pkg.CompiledGoFiles[0])
+	outDir := filepath.Dir(goFiles[0])
 	if _, err := os.Stat(outDir); os.IsNotExist(err) {
 		if err := os.MkdirAll(outDir, os.ModePerm); err != nil {
 			return nil, err
-- 
2.43.0


From 4328f28676fff76b3dfdd0a97d28059c523d40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:36 +0000
Subject: [PATCH 70/77] fix: tell references from different packages apart when
 following chains of them

---
 pkg/crd/flatten.go        |  5 +++++
 pkg/crd/schema_visitor.go | 31 +++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index ad247f9..9e6c799 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -386,6 +386,11 @@ type flattenVisitor struct {
 	originalField  apiext.JSONSchemaProps
 }
 
+// refScope returns the package that references are resolved relative to.
+func (f *flattenVisitor) refScope() any {
+	return f.currentPackage
+}
+
 func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor {
 	if baseSchema == nil {
 		// end-of-node marker, cache the results
diff --git a/pkg/crd/schema_visitor.go b/pkg/crd/schema_visitor.go
index 2604d73..b67baa4 100644
--- a/pkg/crd/schema_visitor.go
+++ b/pkg/crd/schema_visitor.go
@@ -34,6 +34,29 @@ type SchemaVisitor interface {
 	Visit(schema *apiext.JSONSchemaProps) SchemaVisitor
 }
 
+// refScoper is implemented by visitors that resolve references, which mean
+// different types in different scopes (a package, for instance).
+type refScoper interface {
+	// refScope returns the scope in which the references of the children
+	// of this visitor's node, or the node it was replaced by, are resolved.
+	refScope() any
+}
+
+// scopedRef is a reference, together with the scope it's resolved in.
+type scopedRef struct {
+	scope any
+	ref   string
+}
+
+// scopeRef determines what the given reference means to the given visitor.
+func scopeRef(visitor SchemaVisitor, ref string) scopedRef {
+	scoped := scopedRef{ref: ref}
+	if scoper, hasScope := visitor.(refScoper); hasScope {
+		scoped.scope = scoper.refScope()
+	}
+	return scoped
+}
+
 // EditSchema walks the given schema using the given visitor.  Actual
 // pointers to each schema node are passed to the visitor, so any changes
 // made by the visitor will be reflected to the passed-in schema.
@@ -59,9 +82,9 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 	// Walk a potential chain of schema references, keeping track of seen
 	// references to avoid circular references
 	subVisitor := w.visitor
-	seenRefs := map[string]bool{}
+	seenRefs := map[scopedRef]bool{}
 	if schema.Ref != nil {
-		seenRefs[*schema.Ref] = true
+		seenRefs[scopeRef(subVisitor, *schema.Ref)] = true
 	}
 	for {
 		subVisitor = subVisitor.Visit(schema)
@@ -72,10 +95,10 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 		defer subVisitor.Visit(nil)
 
 		// Break if schema is not a reference or a cycle is detected
-		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[*schema.Ref] {
+		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[scopeRef(subVisitor, *schema.Ref)] {
 			break
 		}
-		seenRefs[*schema.Ref] = true
+		seenRefs[scopeRef(subVisitor, *schema.Ref)] = true
 	}
 
 	// walk sub-schemata
-- 
2.43.0


From f401da7758cb36c69aee2662cc1da49809c7d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:24 +0000
Subject: [PATCH 71/77] fix: leave out types that opt out of apply
 configurations even if they have clients

---
 pkg/applyconfiguration/gen.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index f3b580a..d5a37b4 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -22,6 +22,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"strings"
 
 	"k8s.io/apimachinery/pkg/util/sets"
 	"k8s.io/code-generator/cmd/applyconfiguration-gen/args"
@@ -105,6 +106,17 @@ func enabledOnType(pkgEnabled bool, info *markers.TypeInfo) bool {
 	return pkgEnabled && isCRD(info)
 }
 
+// withoutGenclient leaves out the markers that ask for a client.
+func withoutGenclient(comments []string) []string {
+	var kept []string
+	for _, line := range comments {
+		if !strings.HasPrefix(strings.TrimSpace(line), "+genclient") {
+			kept = append(kept, line)
+		}
+	}
+	return kept
+}
+
 func outputPkg(col *markers.Collector, pkg *loader.Package) string {
 	pkgMarkers, err := markers.PackageMarkers(col, pkg)
 	if err != nil {
@@ -269,12 +281,17 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
-		if !enabledOnType(pkgEnabled, info) {
+		typ, ok := pkg.Types[info.Name]
+		if !ok {
 			return
 		}
 
-		typ, ok := pkg.Types[info.Name]
-		if !ok {
+		if !enabledOnType(pkgEnabled, info) {
+			// A type that opts out doesn't get any, even though there may be clients for it.
+			if info.Markers.Get(enableTypeMarker.Name) != nil {
+				typ.CommentLines = withoutGenclient(typ.CommentLines)
+				typ.SecondClosestCommentLines = withoutGenclient(typ.SecondClosestCommentLines)
+			}
 			return
 		}
 
-- 
2.43.0


From 2e1d5bd859a735d3270a3dee051b66eb2f54ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:43 +0000
Subject: [PATCH 72/77] fix: load Go files given as paths from the directories
 they are in

---
 pkg/loader/loader.go | 50 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 16661b3..e6fc163 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -26,6 +26,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"strings"
 	"sync"
 
 	"golang.org/x/tools/go/packages"
@@ -431,9 +432,14 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 		var pkgs []*Package
 		for _, rp := range rawPkgs {
 			p := l.packageFor(rp)
-			if !uniquePkgIDs.Has(p.ID) {
+			id := p.ID
+			if id == fileListPkgID {
+				// all packages made of files on the command line have the same ID
+				id = strings.Join(append([]string{id}, p.GoFiles...), "\n")
+			}
+			if !uniquePkgIDs.Has(id) {
 				pkgs = append(pkgs, p)
-				uniquePkgIDs.Insert(p.ID)
+				uniquePkgIDs.Insert(id)
 			}
 		}
 		return pkgs, nil
@@ -581,9 +587,37 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	//       or "./..."
 	//
 	//    4. execute the loader with the value from step three
+	//
+	// files are different: they're loaded from the directory that they're in,
+	// together with the other files of that directory, as a single package
+	filesInDir := map[string][]string{}
+	for _, r := range fspRoots {
+		if isGoFile(r) {
+			pattern := fmt.Sprintf(".%s%s", string(filepath.Separator), filepath.Base(r))
+			filesInDir[filepath.Dir(r)] = append(filesInDir[filepath.Dir(r)], pattern)
+		}
+	}
+
 	for _, r := range fspRoots {
 		b, d := filepath.Base(r), filepath.Dir(r)
 
+		if isGoFile(r) {
+			files := filesInDir[d]
+			if len(files) == 0 {
+				// already loaded together with another file
+				continue
+			}
+			delete(filesInDir, d)
+
+			l.cfg.Dir = d
+			pkgs, err := loadPackages(sets.List(sets.New(files...))...)
+			if err != nil {
+				return nil, err
+			}
+			l.Roots = append(l.Roots, pkgs...)
+			continue
+		}
+
 		// we want the base part of the path to be either "..." or ".", except
 		// Go's filepath utilities clean paths during manipulation, removing the
 		// ".". thus, if not "...", let's update the path components so that:
@@ -616,6 +650,18 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	return l.Roots, nil
 }
 
+// fileListPkgID is the ID that go list gives to packages made of a list of files.
+const fileListPkgID = "command-line-arguments"
+
+// isGoFile checks whether the given path is the path of a Go source file.
+func isGoFile(path string) bool {
+	if filepath.Ext(path) != ".go" {
+		return false
+	}
+	info, err := os.Stat(path)
+	return err == nil && !info.IsDir()
+}
+
 // visitImports walks a dependency graph, replacing imported package
 // references with those from the rootPkgs list. This ensures the
 // kubebuilder marker generation is handled correctly. For more info,
-- 
2.43.0


From ab726eb330385b85ea8972692f28d4218637fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:11 +0000
Subject: [PATCH 73/77] fix: order webhooks of packages given as lists of files
 independently of the list

---
 pkg/webhook/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 2c43455..ca9ebcf 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -25,6 +25,7 @@ package webhook
 import (
 	"fmt"
 	"math"
+	"path/filepath"
 	"sort"
 	"strings"
 
@@ -462,6 +463,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 	// the order of the webhooks must not depend on the order in which the packages were given
 	roots := append([]*loader.Package(nil), ctx.Roots...)
 	sort.SliceStable(roots, func(i, j int) bool {
+		if roots[i].PkgPath == roots[j].PkgPath && len(roots[i].GoFiles) > 0 && len(roots[j].GoFiles) > 0 {
+			// packages given as lists of files share one path
+			return filepath.Dir(roots[i].GoFiles[0]) < filepath.Dir(roots[j].GoFiles[0])
+		}
 		return roots[i].PkgPath < roots[j].PkgPath
 	})
 
-- 
2.43.0


From 3d8260dbf05a0e72b47f2982e513907a0a9816eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 74/77] fix: leave blank fields out of deepcopy code

---
 pkg/deepcopy/traverse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b8d71eb..a45f814 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -509,6 +509,10 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 	for i := 0; i < structType.NumFields(); i++ {
 		field := structType.Field(i)
+		if field.Name() == "_" {
+			// there's no way to refer to those
+			continue
+		}
 
 		// if we have a manual deepcopy, use that
 		hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, field.Type())
@@ -853,6 +857,10 @@ func fineToShallowCopy(typeInfo types.Type) bool {
 		// structs are fine to shallow-copy if they have all shallow-copyable fields
 		for i := 0; i < typeInfo.NumFields(); i++ {
 			field := typeInfo.Field(i)
+			if field.Name() == "_" {
+				// nothing can refer to those, so their values don't matter
+				continue
+			}
 			if !fineToShallowCopy(field.Type()) {
 				return false
 			}
-- 
2.43.0


From 9d1f05f214582f8f2b3864eb07b22483343d8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 75/77] fix: describe fields with the JSON option string as
 strings

---
 pkg/crd/schema.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index f7a6b41..d391fc4 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -462,8 +462,11 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		inline := false
 		omitEmpty := false
+		quoted := false
 		for _, opt := range jsonOpts[1:] {
 			switch opt {
+			case "string":
+				quoted = isQuotable(ctx.pkg.TypesInfo.TypeOf(field.RawField.Type))
 			case "inline":
 				inline = true
 			case "omitempty", "omitzero":
@@ -512,9 +515,12 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		}
 
 		var propSchema *apiext.JSONSchemaProps
-		if field.Markers.Get(crdmarkers.SchemalessName) != nil {
+		switch {
+		case field.Markers.Get(crdmarkers.SchemalessName) != nil:
 			propSchema = &apiext.JSONSchemaProps{}
-		} else {
+		case quoted:
+			propSchema = &apiext.JSONSchemaProps{Type: "string"}
+		default:
 			propSchema = typeToSchema(ctx.ForInfo(&markers.TypeInfo{}), field.RawField.Type)
 		}
 		propSchema.Description = field.Doc
@@ -595,6 +601,21 @@ func isByte(typ types.Type) bool {
 	return isBasic && basic.Kind() == types.Byte && !implements(typ, jsonMarshaler) && !implements(typ, textMarshaler)
 }
 
+// isQuotable checks if encoding/json heeds the "string" option for fields of the given
+// type, i.e. if it's a basic type, derived from one, or a pointer to one of those, and
+// has no marshaler of its own.
+func isQuotable(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	if ptr, isPtr := types.Unalias(typ).(*types.Pointer); isPtr {
+		typ = ptr.Elem()
+	}
+	basic, isBasic := typ.Underlying().(*types.Basic)
+	return isBasic && basic.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0 &&
+		!implements(typ, jsonMarshaler) && !implements(typ, textMarshaler)
+}
+
 func implements(typ types.Type, iface *types.Interface) bool {
 	return types.Implements(typ, iface) || types.Implements(types.NewPointer(typ), iface)
 }
-- 
2.43.0


From 9af2eab36a34c7bf37abc1001beb9b1fbbb45b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:26 +0000
Subject: [PATCH 76/77] fix: find kinds that embed TypeMeta and ObjectMeta by
 means of aliases

---
 pkg/crd/gen.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 3650e01..e4081a0 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -20,6 +20,8 @@ import (
 	"fmt"
 	"go/ast"
 	"go/types"
+	"maps"
+	"slices"
 	"sort"
 	"strings"
 
@@ -263,7 +265,27 @@ func FindMetav1(roots []*loader.Package) *loader.Package {
 			return pkg
 		}
 	}
-	return nil
+
+	// packages may also use aliases that some other package declares
+	seen := make(map[*loader.Package]bool)
+	var find func(pkgs []*loader.Package) *loader.Package
+	find = func(pkgs []*loader.Package) *loader.Package {
+		for _, pkg := range pkgs {
+			if seen[pkg] {
+				continue
+			}
+			seen[pkg] = true
+			imports := pkg.Imports()
+			if metav1Pkg := imports["k8s.io/apimachinery/pkg/apis/meta/v1"]; metav1Pkg != nil {
+				return metav1Pkg
+			}
+			if metav1Pkg := find(slices.Collect(maps.Values(imports))); metav1Pkg != nil {
+				return metav1Pkg
+			}
+		}
+		return nil
+	}
+	return find(roots)
 }
 
 // FindKubeKinds locates all types that contain TypeMeta and ObjectMeta
@@ -287,7 +309,7 @@ func FindKubeKinds(parser *Parser, metav1Pkg *loader.Package) []schema.GroupKind
 				continue
 			}
 
-			fieldType := typesInfo.TypeOf(field.RawField.Type)
+			fieldType := types.Unalias(typesInfo.TypeOf(field.RawField.Type))
 			namedField, isNamed := fieldType.(*types.Named)
 			if !isNamed {
 				// ObjectMeta and TypeMeta are named types
@@ -305,7 +327,11 @@ func FindKubeKinds(parser *Parser, metav1Pkg *loader.Package) []schema.GroupKind
 			// of the object. The objects in memory could be different due to
 			// loading from different root paths, even when they both refer to
 			// the same metav1 package.
-			if fieldPkg == nil || fieldPkg.ID != metav1Pkg.ID {
+			if fieldPkg != nil && fieldPkg.ID != metav1Pkg.ID {
+				continue
+			}
+			// The package isn't imported when its types are used by means of aliases.
+			if fieldPkg == nil && fieldPkgPath != loader.NonVendorPath(metav1Pkg.PkgPath) {
 				continue
 			}
 
-- 
2.43.0


From 06e9b513b0a5335557eef17b33cd8b2579e69d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:05 +0000
Subject: [PATCH 77/77] fix: name the imports of deepcopy code independently of
 where types are declared

---
 pkg/deepcopy/gen.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index e219b05..0965fe9 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -217,18 +217,29 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) []byte {
 	imports.byAlias[root.Name] = ""
 	imports.reserveIdents()
 
+	var infos []*markers.TypeInfo
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
+		infos = append(infos, info)
+	}); err != nil {
+		root.AddError(err)
+		return nil
+	}
+	// the names of imports depend on the order that they're needed in, which shouldn't
+	// depend on where the types are declared
+	sort.SliceStable(infos, func(i, j int) bool { return infos[i].Name < infos[j].Name })
+
+	for _, info := range infos {
 		outContent := new(bytes.Buffer)
 
 		// copy when nabled for all types and not disabled, or enabled
 		// specifically on this type
 		if !enabledOnType(allTypes, info) {
-			return
+			continue
 		}
 
 		// avoid copying non-exported types, etc
 		if !shouldBeCopied(root, info) {
-			return
+			continue
 		}
 
 		copyCtx := &copyMethodMaker{
@@ -243,9 +254,6 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) []byte {
 		if len(outBytes) > 0 {
 			byType[info.Name] = outBytes
 		}
-	}); err != nil {
-		root.AddError(err)
-		return nil
 	}
 
 	if len(byType) == 0 {
-- 
2.43.0

