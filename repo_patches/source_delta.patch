From a32d33529a3da04ac90ae7e9caec4f895605f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 01/58] fix: do not panic on structs that embed a type from
 their own package

An embedded field has no names in the AST, so logging field.Names[0]
panicked whenever the embedded type lived in the same package.
---
 astTraversal/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..0c548ea 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -233,7 +233,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 				node, err := structFieldResult.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
-						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
+						t.Traverser.Log.Debug().Str("field", name).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
 				}
-- 
2.43.0


From 359118d7ff7e017656463a8208eff1f720c5beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 02/58] fix: terminate on recursive types

A struct that refers to itself, directly or through other types, recursed
until the stack overflowed. Each named type is now traversed once.
---
 astTraversal/traverser.go |  3 +++
 astTraversal/type.go      | 32 ++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..8f18ba0 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/types"
 
 	"github.com/rs/zerolog"
 )
@@ -14,6 +15,7 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+	addedTypes         map[*types.TypeName]bool // The named types that have been (or are being) added as components, so that recursive types terminate.
 }
 
 func New(workDir string) *BaseTraverser {
@@ -137,5 +139,6 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result) error) *BaseTraverser {
 	t.addComponent = addComponent
 	t.shouldAddComponent = true
+	t.addedTypes = make(map[*types.TypeName]bool)
 	return t
 }
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 0c548ea..f923df2 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -136,19 +136,12 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
-				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
-				if err != nil {
-					return Result{}, err
-				}
-
-				namedUnderlyingResult.Doc, err = t.Doc()
-				if err != nil {
-					return Result{}, err
-				}
-
-				err = t.Traverser.addComponent(namedUnderlyingResult)
+			if t.Traverser.shouldAddComponent && !t.Traverser.addedTypes[n.Obj()] {
+				// A type can refer to itself, so it has to be marked before its underlying type is traversed
+				t.Traverser.addedTypes[n.Obj()] = true
+				err = t.addNamedComponent(n, pkg)
 				if err != nil {
+					delete(t.Traverser.addedTypes, n.Obj())
 					return Result{}, err
 				}
 			}
@@ -269,6 +262,21 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// addNamedComponent adds the component of a named type, and of every named type that it refers to.
+func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
+	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+	if err != nil {
+		return err
+	}
+
+	namedUnderlyingResult.Doc, err = t.Doc()
+	if err != nil {
+		return err
+	}
+
+	return t.Traverser.addComponent(namedUnderlyingResult)
+}
+
 func (t *TypeTraverser) Doc() (string, error) {
 	if named, ok := t.Node.(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
-- 
2.43.0


From 6411e0d92c017272178275c9e5c750a1f677268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 03/58] fix: terminate on recursive helper functions

A helper that takes the context and calls itself (or another helper that
calls it back) was followed for ever. Every function body is now analysed
once per route.
---
 inputs/gin/parseFunction.go | 10 ++++++++--
 inputs/gin/parseRoute.go    |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..8a54874 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -25,9 +25,15 @@ const (
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
+// The visited bodies are used to only analyse every function once, as the helper functions can be recursive.
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, visited map[*ast.BlockStmt]bool) error {
 	traverser := funcTraverser.Traverser
 
+	if visited[funcTraverser.Node.Body] {
+		return nil
+	}
+	visited[funcTraverser.Node.Body] = true
+
 	traverser.SetActiveFile(activeFile)
 	traverser.SetAddComponentFunction(addComponent(s))
 
@@ -95,7 +101,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, visited)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
 				return false
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index fbd814b..5b00fd9 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -111,7 +111,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 								return false
 							}
 
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, make(map[*ast.BlockStmt]bool))
 							if err != nil {
 								log.Error().Err(err).Msg("Failed to parse inline function")
 								return false
@@ -139,7 +139,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 			// And define the function name as the operation ID
 			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
 
-			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, make(map[*ast.BlockStmt]bool))
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to parse function")
 				return false
-- 
2.43.0


From 7fb2c64a196c498dfb2936bc1bd0700d990a0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 04/58] fix: keep the route when a context call cannot be
 analysed

A status code or a name that is not a constant made Build return a nil
route, which replaced the route that is being parsed: the next context call
of the handler panicked.
---
 contextFuncBuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index cc14aea..e0d712a 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -64,12 +64,14 @@ func (c *ContextFuncBuilder) Value() *ContextFuncBuilder {
 	return c
 }
 
+// Build runs the operations for every parameter and maps their results to the route.
+// If a parameter can't be analysed, the route is returned as it was alongside the error.
 func (c *ContextFuncBuilder) Build(mapper func(*Route, []any) (*Route, error)) (*Route, error) {
 	results := make([]any, len(c.paramOperations))
 	for i, operation := range c.paramOperations {
 		result, err := operation()
 		if err != nil {
-			return nil, err
+			return c.Route, err
 		}
 
 		results[i] = result
-- 
2.43.0


From 832a861e87a4f6e5811b178e83d3840987b09e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 05/58] fix: do not lose context calls next to a call that
 cannot be analysed

A call that could not be analysed (a builtin, a conversion, a function
literal, an unresolvable helper, a status that is not a constant) hid every
context call in its arguments, and a helper that failed in another file left
that file active, so that the rest of the handler was lost as well.
---
 inputs/gin/parseFunction.go | 83 ++++---------------------------------
 1 file changed, 8 insertions(+), 75 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 8a54874..9284f8f 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -54,6 +54,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 	var err error
 	// Loop over every statement in the function
+	// A call that can't be analysed is skipped, but its children are always visited as they may use the context too
 	ast.Inspect(funcTraverser.Node.Body, func(n ast.Node) bool {
 		if n == nil {
 			return true
@@ -79,7 +80,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var newRoute *astra.Route
 			newRoute, err = customFunc(ctxName, funcBuilder)
 			if err != nil {
-				return false
+				return true
 			}
 			if newRoute != nil {
 				currRoute = newRoute
@@ -98,21 +99,22 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			function, err = callExpr.Function()
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("failed to get function")
-				return false
+				traverser.SetActiveFile(activeFile)
+				return true
 			}
 
 			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, visited)
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-				return false
+				return true
 			}
-
-			traverser.SetActiveFile(activeFile)
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
 			if err != nil {
-				return false
+				// It isn't a declared function (i.e. a builtin, a conversion or a function literal)
+				return true
 			}
 
 			signature, ok := funcType.Type().(*types.Signature)
@@ -150,9 +152,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "XML":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -175,9 +174,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "YAML":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -200,9 +196,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "ProtoBuf":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -225,9 +218,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "Data":
 					currRoute, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -249,9 +239,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "String": // c.String
 					currRoute, err = funcBuilder.StatusCode().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -271,9 +258,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "Status": // c.Status
 					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -311,9 +295,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "GetQueryArray", "QueryArray":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -333,9 +314,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "GetQueryMap", "QueryMap":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -355,9 +333,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "ShouldBindQuery", "BindQuery":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
@@ -374,9 +349,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 
 				// Body Param methods
 				case "ShouldBind", "Bind":
@@ -417,9 +389,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "ShouldBindJSON", "BindJSON":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
@@ -437,9 +406,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "ShouldBindXML", "BindXML":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
@@ -457,9 +423,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "ShouldBindYAML", "BindYAML":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
@@ -477,9 +440,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "GetPostForm", "PostForm":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -499,9 +459,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "GetPostFormArray", "PostFormArray":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -522,9 +479,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "GetPostFormMap", "PostFormMap":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -545,9 +499,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "FormFile":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -567,9 +518,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "GetHeader":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -588,9 +536,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "ShouldBindHeader", "BindHeader":
 					currRoute, err = funcBuilder.ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						result, ok := params[0].(astTraversal.Result)
@@ -607,9 +552,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "Header":
 					currRoute, err = funcBuilder.Value().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						name, ok := params[0].(string)
@@ -646,9 +588,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "AbortWithStatus":
 					currRoute, err = funcBuilder.StatusCode().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -667,9 +606,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				case "AbortWithStatusJSON":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
@@ -692,9 +628,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 
 						return route, nil
 					})
-					if err != nil {
-						return false
-					}
 				}
 			}
 		}
-- 
2.43.0


From cc694fc3130c93dffc96f35c4cf9485b0c3be025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 06/58] fix: do not panic on handlers with an unnamed context
 parameter

func Health(*gin.Context) is a valid handler, but its parameter has no name
in the AST.
---
 astTraversal/function.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..7a3d44a 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -52,6 +52,11 @@ func (f *FunctionTraverser) Results() []*ast.Field {
 
 func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath string, isPointer bool) string {
 	for _, arg := range f.Arguments() {
+		// An argument without a name can't be used by the function
+		if len(arg.Names) == 0 {
+			continue
+		}
+
 		argType, err := f.File.Package.FindTypeForExpr(arg.Type)
 		if err != nil {
 			continue
-- 
2.43.0


From 1c33a5aba303e89ecf81ffb56e32240146cc6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 07/58] fix: do not panic on variables without an initial value

The name of a parameter (or a status code) can be a variable declared with
no value, or assigned by a call that returns several values.
---
 astTraversal/declaration.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..be4b9e9 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,11 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		// A declaration without an initial value, or with a single call that returns them all
+		if index >= len(n.Values) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +46,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if index >= len(n.Rhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
-- 
2.43.0


From a909a50a9f127eb264c6473745f8e5746b1764e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 08/58] fix: use the exact value of constant names and status
 codes

A string constant was documented with its quotes (and cut after 72
characters), a raw string with its backquotes, a constant expression not at
all, and a constant or field of another package was looked up by its bare
name, in random order.
---
 astTraversal/expression.go | 40 +++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..bfdf1d0 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,9 +3,10 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strings"
+	"strconv"
 )
 
 type ExpressionTraverser struct {
@@ -50,7 +51,7 @@ func (e *ExpressionTraverser) Value() (string, error) {
 	case *ast.BasicLit:
 		value := n.Value
 		if n.Kind == token.STRING {
-			value = strings.Trim(value, "\"")
+			return strconv.Unquote(value)
 		}
 
 		return value, nil
@@ -60,8 +61,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantValue(constObj.Val()), nil
 		}
 
 		node, err := e.File.Package.ASTAtPos(obj.Pos())
@@ -91,21 +92,26 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantValue(constObj.Val()), nil
+		}
+
+		// Only the variables of a package have a value, the fields of a struct don't
+		if obj.Pkg() == nil || obj.Parent() != obj.Pkg().Scope() {
+			return "", errors.New("value not retrievable")
+		}
+
 		pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
 		_, err = e.Traverser.Packages.Get(pkg)
 		if err != nil {
 			return "", err
 		}
 
-		obj, err = pkg.FindObjectForIdentFuzzy(n.Sel)
+		obj, err = pkg.FindObjectForName(n.Sel.Name)
 		if err != nil {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
-		}
-
 		node, err := pkg.ASTAtPos(obj.Pos())
 		if err != nil {
 			return "", err
@@ -129,9 +135,25 @@ func (e *ExpressionTraverser) Value() (string, error) {
 		return e.Traverser.Expression(exprNode).Value()
 	}
 
+	// Any other expression only has a value if it's constant (i.e. a concatenation or a conversion of constants)
+	if e.File != nil && e.File.Package.Package != nil {
+		if value := e.File.Package.Package.TypesInfo.Types[e.Node].Value; value != nil {
+			return constantValue(value), nil
+		}
+	}
+
 	return "", errors.New("value not retrievable")
 }
 
+// constantValue returns the exact value of a constant, without the quotes if it's a string.
+func constantValue(value constant.Value) string {
+	if value.Kind() == constant.String {
+		return constant.StringVal(value)
+	}
+
+	return value.ExactString()
+}
+
 func (e *ExpressionTraverser) Type() (types.Type, error) {
 	switch n := e.Node.(type) {
 	case *ast.StarExpr:
-- 
2.43.0


From 08b69edfd40704c530ffe7b2c6d9e2cefc3dee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 09/58] fix: find the type of every kind of response expression

An index, an operation, a conversion, a parenthesised expression, an
anonymous struct or the result of a function value dropped the whole
response, and an untyped constant or nil was documented with a type that
does not exist.
---
 astTraversal/expression.go | 10 +++++++++-
 astTraversal/type.go       |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index bfdf1d0..2de5dea 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -195,7 +195,15 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 			return nil, err
 		}
 
-		return callExpr.ReturnType(e.ReturnNum)
+		returnType, err := callExpr.ReturnType(e.ReturnNum)
+		if err == nil {
+			return returnType, nil
+		}
+	}
+
+	// Any other expression (i.e. an index, an operation or a conversion) has the type that the type checker found
+	if e.File != nil && e.Node != nil {
+		return e.File.Package.FindTypeForExpr(e.Node)
 	}
 
 	return nil, errors.New("unsupported expression type")
diff --git a/astTraversal/type.go b/astTraversal/type.go
index f923df2..76a6149 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -34,10 +34,18 @@ func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
 	switch n := t.Node.(type) {
 	case *types.Basic:
+		// An untyped constant has the default type of its kind when it's used as a value
+		if basic, ok := types.Default(n).(*types.Basic); ok {
+			n = basic
+		}
+
 		result = Result{
 			Type:    n.Name(),
 			Package: t.Package,
 		}
+		if n.Kind() == types.UntypedNil {
+			result.Type = "nil"
+		}
 
 		// If the name isn't empty, it's a named type
 		// Therefore it has the potential to be an enum
-- 
2.43.0


From c706b652a5f1f1ee3f1a46a85f29113426a6fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 10/58] fix: document every constant of an enum

Only the constants declared with a literal were listed, so the enum of an
iota (or of negative, computed or converted constants) was missing values
that the service accepts and returns.
---
 astTraversal/type.go | 101 ++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 55 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 76a6149..6c4c01d 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -2,10 +2,9 @@ package astTraversal
 
 import (
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -72,60 +71,52 @@ func (t *TypeTraverser) Result() (Result, error) {
 						for _, spec := range genDecl.Specs {
 							// If the spec is a ValueSpec, we check if the type is the same as the named type
 							if valueSpec, ok := spec.(*ast.ValueSpec); ok {
-								// If the type is the same as the named type, we iterate over every value
-								if valueSpec.Type != nil {
-									// We check this by comparing the name of the type to the name of the named type
-									// It must be an Ident, otherwise it's not a named type, or it's from another package, not the one we're looking for
-									if ident, ok := valueSpec.Type.(*ast.Ident); ok {
-										if ident.Name == t.name {
-											// We iterate over every value in the value spec
-											for _, value := range valueSpec.Values {
-												// If the value is a basic literal, we add it to the enum values
-												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
-													// And format it accordingly
-													switch n.Kind() {
-													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
-													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
-													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													}
-												}
-											}
+								// We iterate over every constant of the value spec
+								// The type checker knows its type and value, even when they're implicit (i.e. iota)
+								for _, name := range valueSpec.Names {
+									constObj, ok := t.Package.Package.TypesInfo.Defs[name].(*types.Const)
+									if !ok || name.Name == "_" {
+										continue
+									}
+
+									// If the type is the same as the named type, we add its value to the enum values
+									named, ok := constObj.Type().(*types.Named)
+									if !ok || named.Obj() != t.Package.Package.Types.Scope().Lookup(t.name) {
+										continue
+									}
+
+									// Switch over the basic type's kind to determine the type of the value
+									// And format it accordingly
+									switch n.Kind() {
+									case types.String:
+										result.EnumValues = append(result.EnumValues, constant.StringVal(constObj.Val()))
+									case types.Int:
+										i, exact := constant.Int64Val(constObj.Val())
+										if !exact {
+											continue
 										}
+
+										result.EnumValues = append(result.EnumValues, int(i))
+									case types.Float32, types.Float64:
+										f, _ := constant.Float64Val(constObj.Val())
+
+										result.EnumValues = append(result.EnumValues, f)
+									case types.Bool:
+										result.EnumValues = append(result.EnumValues, constant.BoolVal(constObj.Val()))
+									case types.Int8, types.Int16, types.Int32, types.Int64:
+										i, exact := constant.Int64Val(constObj.Val())
+										if !exact {
+											continue
+										}
+
+										result.EnumValues = append(result.EnumValues, i)
+									case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
+										i, exact := constant.Uint64Val(constObj.Val())
+										if !exact {
+											continue
+										}
+
+										result.EnumValues = append(result.EnumValues, i)
 									}
 								}
 							}
-- 
2.43.0


From f5d1bd3083d1170df58c03cd1e616c74859de4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 11/58] fix: do not restrict a substituted type to the
 constants of the original

time.Duration was documented as an integer enum of its own constants.
---
 substituteTypes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/substituteTypes.go b/substituteTypes.go
index 7fb7219..1714c2f 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -20,6 +20,7 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 
 		component.Type = substituteTypes[qualifiedName]
 
+		component.EnumValues = nil
 		component.StructFields = nil
 		component.SliceType = ""
 		component.MapValueType = ""
-- 
2.43.0


From 0b4e1e732c53970752a8ba338f0fb2849b311155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 12/58] fix: add a return type once, and only once

A return type was added again as soon as the route had a different one, and
a slice was taken for a duplicate of any other slice of the same package.
---
 safePushing.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..352c26f 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -1,19 +1,21 @@
 package astra
 
+import "reflect"
+
 // AddReturnType adds a return type to a slice of return types if it doesn't already exist.
-// It uses the field type, package and status code to determine if the return type already exists.
+// It uses the whole field, status code and content type to determine if the return type already exists.
 func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 	for _, newReturn := range n {
-		if len(prev) == 0 {
-			prev = append(prev, newReturn)
-		} else {
-			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
-					break
-				}
+		var found bool
+		for _, existingReturn := range prev {
+			if reflect.DeepEqual(newReturn, existingReturn) {
+				found = true
+				break
 			}
 		}
+		if !found {
+			prev = append(prev, newReturn)
+		}
 	}
 
 	return prev
-- 
2.43.0


From ee1f82491e154f6b5a98b3cb62659e24df95b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 13/58] fix: let the CLI rebind an Azure Functions output

A cached Azure Functions output that has a directory path was rejected for
not having one.
---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From 7a756de246ba4479ae55949d033631c9af54f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 14/58] fix: restore the custom type mapping from the cache

The mapping is cached, but the CLI ignored it when it loaded the cache, so
it documented different types than a run without the CLI.
---
 cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..8190b30 100644
--- a/cache.go
+++ b/cache.go
@@ -109,6 +109,10 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+	if service.CustomTypeMapping != nil {
+		s.CustomTypeMapping = service.CustomTypeMapping
+		s.fullTypeMapping = nil
+	}
 	return nil
 }
 
-- 
2.43.0


From d87bedb99802c72564419be5640216ab9b02076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 15/58] fix: cache services with inputs and outputs as YAML

The YAML encoder panicked on the functions of the inputs and outputs.
---
 input.go   | 4 ++--
 output.go  | 2 +-
 service.go | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..742c4a9 100644
--- a/input.go
+++ b/input.go
@@ -3,8 +3,8 @@ package astra
 // Input is the input for the generator.
 type Input struct {
 	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..8719e89 100644
--- a/output.go
+++ b/output.go
@@ -4,7 +4,7 @@ package astra
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
 	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
 	Configuration IOConfiguration `json:"configuration"`
 }
 
diff --git a/service.go b/service.go
index e6431cc..436ad55 100644
--- a/service.go
+++ b/service.go
@@ -21,7 +21,7 @@ type Service struct {
 	Inputs  []Input  `json:"inputs" yaml:"inputs"`
 	Outputs []Output `json:"outputs" yaml:"outputs"`
 
-	Log zerolog.Logger `json:"-"`
+	Log zerolog.Logger `json:"-" yaml:"-"`
 
 	Config *Config `json:"config" yaml:"config"`
 
@@ -32,9 +32,9 @@ type Service struct {
 	tempMainPackageName string
 	WorkDir             string `json:"-" yaml:"-"`
 
-	CacheEnabled bool    `json:"-"`
-	CachePath    string  `json:"-"`
-	CLIMode      CLIMode `json:"-"`
+	CacheEnabled bool    `json:"-" yaml:"-"`
+	CachePath    string  `json:"-" yaml:"-"`
+	CLIMode      CLIMode `json:"-" yaml:"-"`
 
 	PathDenyList []func(string) bool `json:"-" yaml:"-"`
 
-- 
2.43.0


From f4bb92231bd6f255cc9ca8d968168b553ae4ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 16/58] fix: never lose the cache when it is written

The previous cache was removed before the new one was created and written
in place, so a failure (or a crash) in between left no cache, an empty one
or a truncated one, which the CLI could not recover from.
---
 cache.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/cache.go b/cache.go
index 8190b30..224c92b 100644
--- a/cache.go
+++ b/cache.go
@@ -27,19 +27,8 @@ func (s *Service) Cache() error {
 		cachePath = path.Join(s.getAstraDirPath(), cacheFileName)
 	}
 
-	if _, err := os.Stat(cachePath); err == nil {
-		err := s.ClearCache()
-		if err != nil {
-			return err
-		}
-	}
-
-	f, err := os.Create(cachePath)
-	if err != nil {
-		return err
-	}
-
 	var cacheStr []byte
+	var err error
 	if strings.HasSuffix(cachePath, ".yaml") || strings.HasSuffix(cachePath, ".yml") {
 		cacheStr, err = yaml.Marshal(s)
 	} else {
@@ -49,7 +38,14 @@ func (s *Service) Cache() error {
 		return err
 	}
 
-	_, err = f.Write(cacheStr)
+	// The cache is written next to its final path and moved over it, so that a failure never leaves a truncated cache or none at all
+	tempCachePath := cachePath + ".tmp"
+	err = os.WriteFile(tempCachePath, cacheStr, 0666)
+	if err != nil {
+		return err
+	}
+
+	err = os.Rename(tempCachePath, cachePath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e58e54973edb0b438dda08bf1d06d307cb9a4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 17/58] fix: clean the types of the headers

A header struct of the main package kept the name of the temporary package,
so its component was not found and the header was dropped.
---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..df8374d 100644
--- a/clean.go
+++ b/clean.go
@@ -29,6 +29,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 	}
 
 	s.Log.Info().Msg("Cleaning up structs complete")
-- 
2.43.0


From 57997782e3c57a046625fa6229108cb778fdcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 18/58] fix: generate the same document every time

The embedded types of a struct were listed in the iteration order of a map,
and parameters with the same name in no particular order.
---
 outputs/openapi/components.go | 12 +++++++++++-
 outputs/openapi/generate.go   |  9 ++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..9377dc6 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -144,7 +144,17 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for _, field := range component.StructFields {
+
+		// The embedded types are a list, so the fields have to be iterated over in a stable order
+		fieldNames := make([]string, 0, len(component.StructFields))
+		for fieldName := range component.StructFields {
+			fieldNames = append(fieldNames, fieldName)
+		}
+		slices.Sort(fieldNames)
+
+		for _, fieldName := range fieldNames {
+			field := component.StructFields[fieldName]
+
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..46f3386 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -212,9 +212,12 @@ func Generate(filePath string) astra.ServiceFunction {
 				operation.OperationID = endpoint.OperationID
 			}
 
-			// Sort parameters by name
-			sort.Slice(operation.Parameters, func(i, j int) bool {
-				return operation.Parameters[i].Name < operation.Parameters[j].Name
+			// Sort parameters by name, then by location
+			sort.SliceStable(operation.Parameters, func(i, j int) bool {
+				if operation.Parameters[i].Name != operation.Parameters[j].Name {
+					return operation.Parameters[i].Name < operation.Parameters[j].Name
+				}
+				return operation.Parameters[i].In < operation.Parameters[j].In
 			})
 
 			var endpointPath Path
-- 
2.43.0


From d66a5e6f383de9ca8f88cfa658e4be24f51a25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 19/58] fix: compare every pair of packages for component name
 collisions

Only some of the pairs were compared and only the last difference was kept,
so types of different packages could still end up with the same name (and a
package path that is the end of another one caused a panic).
---
 outputs/openapi/components.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 9377dc6..3202b79 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -48,10 +48,10 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 
 	for _, components := range packageNames {
-		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
+		// Iterate over every pair of components and see if there is ever a case where the full package path doesn't match up.
 		sameUntil := 0
 		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
+			for j := i + 1; j < len(components); j++ {
 				// If the packages don't match, we need to find the first point where they don't match.
 				if components[i].Package != components[j].Package {
 					// Create a slice of the package path split by "/".
@@ -62,15 +62,14 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					slices.Reverse(iComponentPackageSplit)
 					slices.Reverse(jComponentPackageSplit)
 
-					// Iterate over the package path slices and find the first point where they don't match.
-					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
-						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
-							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
-							break
-						}
+					// Iterate over the package path slices and find the first point where they don't match (or where one of them ends).
+					k := 0
+					for k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit) && iComponentPackageSplit[k] == jComponentPackageSplit[k] {
+						k++
 					}
-					break
+
+					// The names have to be long enough to tell every pair apart.
+					sameUntil = max(sameUntil, k)
 				}
 			}
 		}
@@ -89,7 +88,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
 					// and split into "ls6-events" and "different".
 
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
+					splitPackage = splitPackage[max(0, len(splitPackage)-(sameUntil+1)):]
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-- 
2.43.0


From cb175c5d5b712081bc8bba0e404ee96e1527c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 20/58] fix: number the component names that are still the same

The name of a component with a binding type (types.json.User) could be the
name of a component of another package (types/json), and one of them was
lost.
---
 outputs/openapi/components.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 3202b79..268bba4 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -2,6 +2,7 @@ package openapi
 
 import (
 	"slices"
+	"strconv"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -109,6 +110,26 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 			}
 		}
 	}
+
+	// A binding type or a dot can look like a part of another package path, so the names that are still the same are numbered.
+	nameOwners := make(map[string]string)
+	for _, component := range components {
+		owner := component.Package + "/" + component.Name
+		for _, bindingType := range append([]astTraversal.BindingTagType{astTraversal.NoBindingTag}, astTraversal.BindingTags...) {
+			key := collisionSafeKey(bindingType, component.Name, component.Package)
+			name, exists := collisionSafeNames[key]
+			if !exists {
+				continue
+			}
+
+			safeName := name
+			for i := 2; nameOwners[safeName] != "" && nameOwners[safeName] != owner; i++ {
+				safeName = name + "-" + strconv.Itoa(i)
+			}
+			nameOwners[safeName] = owner
+			collisionSafeNames[key] = safeName
+		}
+	}
 }
 
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
-- 
2.43.0


From b951e4d47a9a82013f36c72551f01e6b4feb59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 21/58] fix: forget the component names of previous documents

A document could refer to a component that only existed in a document that
the same process generated before.
---
 outputs/openapi/generate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 46f3386..d5e606a 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -31,6 +31,7 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		s.Log.Debug().Msg("Making collision safe struct names")
+		collisionSafeNames = make(map[string]string)
 		makeCollisionSafeNamesFromComponents(s.Components)
 
 		protocol := "http"
-- 
2.43.0


From 04653fff8a7514f2af073ace5cecc12d20a10454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 22/58] fix: document embedded types the way they are
 serialized

The promoted fields of an embedded struct that is not exported were lost,
and an embedded type that is not a struct was merged into the object instead
of being one of its fields.
---
 astTraversal/type.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 6c4c01d..7a48e8c 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -197,13 +197,15 @@ func (t *TypeTraverser) Result() (Result, error) {
 		fields := make(map[string]Result)
 		for i := 0; i < n.NumFields(); i++ {
 			f := n.Field(i)
-			name := f.Id()
+			name := f.Name()
 			isExported := f.Exported()
-			isEmbedded := f.Embedded()
+			// Only the fields of an embedded struct are promoted when it's serialized, any other embedded type is a field with the name of the type
+			isEmbedded := f.Embedded() && isStruct(f.Type())
 
 			var bindingTag BindingTagMap
 			var validationTags ValidationTagMap
-			if isExported {
+			// The exported fields of an embedded struct are promoted even if the struct isn't exported itself
+			if isExported || isEmbedded {
 				bindingTag, validationTags = ParseStructTag(name, n.Tag(i))
 			} else {
 				continue
@@ -276,6 +278,16 @@ func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) erro
 	return t.Traverser.addComponent(namedUnderlyingResult)
 }
 
+// isStruct checks if the type is a struct, or a pointer to a struct.
+func isStruct(t types.Type) bool {
+	if pointer, ok := t.Underlying().(*types.Pointer); ok {
+		t = pointer.Elem()
+	}
+
+	_, ok := t.Underlying().(*types.Struct)
+	return ok
+}
+
 func (t *TypeTraverser) Doc() (string, error) {
 	if named, ok := t.Node.(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
-- 
2.43.0


From 5887e54111b585b5360ff92659331fbbbeef69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 23/58] fix: document structs with fields that cannot be
 serialized

A channel or a function in a struct (even hidden from the serialization)
dropped the struct and every response or request that refers to it.
---
 astTraversal/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 7a48e8c..7559bcc 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"go/constant"
 	"go/token"
@@ -212,6 +213,10 @@ func (t *TypeTraverser) Result() (Result, error) {
 			}
 
 			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
+			if errors.Is(err, ErrInvalidNodeType) {
+				// The field can't be serialized (i.e. a channel or a function), but the rest of the struct can
+				continue
+			}
 			if err != nil {
 				return Result{}, err
 			}
-- 
2.43.0


From b898f4880d84391a482d42648f00c8754102b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 24/58] fix: read the doc of a field from the package that
 declares it

The position of the field was looked up in the package of its type, which
found no doc or the doc of another field, depending on the order in which
the files were loaded.
---
 astTraversal/type.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 7559bcc..0bc82f2 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -229,7 +229,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 				pos := f.Pos()
 
-				node, err := structFieldResult.Package.ASTAtPos(pos)
+				node, err := t.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
 						t.Traverser.Log.Debug().Str("field", name).Msg("Found doc for field")
@@ -270,7 +270,13 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 // addNamedComponent adds the component of a named type, and of every named type that it refers to.
 func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
-	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+	underlying := n.Underlying()
+	// The type can come from another package that imports it, but the positions of its fields are only known to its own package
+	if obj := pkg.Package.Types.Scope().Lookup(n.Obj().Name()); obj != nil && n.TypeArgs().Len() == 0 && n.Obj().Parent() == n.Obj().Pkg().Scope() {
+		underlying = obj.Type().Underlying()
+	}
+
+	namedUnderlyingResult, err := t.Traverser.Type(underlying, pkg).SetName(n.Obj().Name()).Result()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a55aa0acea799f86425bc17885462db448fe05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 25/58] fix: document the TRACE routes

The path of a TRACE route was documented without its operation.
---
 outputs/openapi/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index d5e606a..c90b386 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -242,6 +242,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				endpointPath.Head = &operation
 			case http.MethodOptions:
 				endpointPath.Options = &operation
+			case http.MethodTrace:
+				endpointPath.Trace = &operation
 			}
 
 			paths[endpoint.Path] = endpointPath
-- 
2.43.0


From 0fc9cda11e4c80f924f9a8b3cd542d10e30aa3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 26/58] fix: keep the format of the items of a slice

The items of a slice that is the body of a request or a response lost the
format that the same items have anywhere else.
---
 outputs/openapi/schema.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..9c01a2c 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -54,9 +54,7 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
 		if field.Type == "slice" {
-			itemSchema := Schema{
-				Type: mapPredefinedTypeFormat(field.SliceType).Type,
-			}
+			itemSchema := mapPredefinedTypeFormat(field.SliceType)
 			if !astra.IsAcceptedType(field.SliceType) {
 				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
 				if bound {
-- 
2.43.0


From 0ee70994683311863a03b8aee9e5ed4ab1e77426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 27/58] fix: document arrays as the body of a request or a
 response

They had no schema at all. The length of an array is the number of its
items, maxLength only restricts strings.
---
 outputs/openapi/components.go |  6 +++---
 outputs/openapi/schema.go     | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 268bba4..95c3683 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -245,9 +245,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		schema = Schema{
-			Type:      "array",
-			Items:     &itemSchema,
-			MaxLength: int(component.ArrayLength),
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(component.ArrayLength),
 		}
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 9c01a2c..b7ad38d 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -42,7 +42,23 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 }
 
 func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
-	if !astra.IsAcceptedType(field.Type) {
+	if field.Type == "array" {
+		itemSchema := mapPredefinedTypeFormat(field.ArrayType)
+		if !astra.IsAcceptedType(field.ArrayType) {
+			componentRef, bound := makeComponentRef(bindingType, field.ArrayType, field.Package)
+			if bound {
+				itemSchema = Schema{
+					Ref: componentRef,
+				}
+			}
+		}
+
+		return Schema{
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(field.ArrayLength),
+		}, true
+	} else if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
 		if bound {
 			return Schema{
-- 
2.43.0


From ac3057bc4bca0d0ea4a8d0f16c01b464864b32f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 28/58] fix: document every form field of a request

Only the last form field (or file) that a handler reads was documented, and
the fields that are arrays or maps were documented as a plain string.
---
 outputs/openapi/generate.go | 30 ++++++++++++++++++++----------
 outputs/openapi/schema.go   | 22 ++++++++++++++++++++++
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index c90b386..e04c517 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -137,10 +137,21 @@ func Generate(filePath string) astra.ServiceFunction {
 				}
 			}
 
+			// A body can have both a bound type and several named properties
+			bodySchemas := make(map[string]Schema)
+			bodyProperties := make(map[string]map[string]Schema)
 			for _, bodyParam := range endpoint.Body {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
 				schema, bound := mapFieldToSchema(bindingType, bodyParam.Field)
+				if bodyParam.Name != "" {
+					schema, bound = mapParamToSchema(bindingType, astra.Param{
+						Name:    bodyParam.Name,
+						Field:   bodyParam.Field,
+						IsArray: bodyParam.IsArray,
+						IsMap:   bodyParam.IsMap,
+					})
+				}
 				if !bound {
 					continue
 				}
@@ -151,19 +162,18 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
-				var mediaType MediaType
-				if bodyParam.Name != "" {
-					mediaType.Schema = Schema{
-						Type: "object",
-						Properties: map[string]Schema{
-							bodyParam.Name: schema,
-						},
-					}
+				if bodyParam.Name == "" {
+					bodySchemas[bodyParam.ContentType] = schema
 				} else {
-					mediaType.Schema = schema
+					if bodyProperties[bodyParam.ContentType] == nil {
+						bodyProperties[bodyParam.ContentType] = make(map[string]Schema)
+					}
+					bodyProperties[bodyParam.ContentType][bodyParam.Name] = schema
 				}
 
-				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
+				operation.RequestBody.Content[bodyParam.ContentType] = MediaType{
+					Schema: makeBodySchema(bodySchemas[bodyParam.ContentType], bodyProperties[bodyParam.ContentType]),
+				}
 			}
 
 			var responseHeaders map[string]Header
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index b7ad38d..acca3a0 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,9 @@
 package openapi
 
 import (
+	"maps"
+	"reflect"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -97,6 +100,25 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 	}
 }
 
+// makeBodySchema makes the schema of a request body from its bound type and its named properties (either of which may be missing).
+func makeBodySchema(boundSchema Schema, properties map[string]Schema) Schema {
+	if len(properties) == 0 {
+		return boundSchema
+	}
+
+	propertiesSchema := Schema{
+		Type:       "object",
+		Properties: maps.Clone(properties),
+	}
+	if reflect.DeepEqual(boundSchema, Schema{}) {
+		return propertiesSchema
+	}
+
+	return Schema{
+		AllOf: []Schema{boundSchema, propertiesSchema},
+	}
+}
+
 // mapTypeFormat maps the type with the list of types from the service.
 // This should be primarily used for custom types in components that need to be mapped.
 func mapTypeFormat(service *astra.Service, acceptedType string, pkg string) Schema {
-- 
2.43.0


From a5c5a196c999f217ae31859a1400721572b4ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 29/58] fix: document the properties of bound parameters

A bound header (or path) was documented as a parameter with no name, and a
bound query lost all of its parameters as soon as its type embeds another.
---
 outputs/openapi/generate.go | 38 ++++++++++++++++++++++----------
 outputs/openapi/schema.go   | 44 +++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index e04c517..4c2e8fa 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -63,6 +63,18 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// The parameters of the path are already known, a bound type can only tell more about them
+				if pathParam.IsBound {
+					properties := boundProperties(s, pathParam.Field, astTraversal.URIBindingTag)
+					for i, parameter := range operation.Parameters {
+						if propertySchema, ok := properties[parameter.Name]; ok {
+							operation.Parameters[i].Schema = propertySchema
+						}
+					}
+
+					continue
+				}
+
 				operation.Parameters = append(operation.Parameters, Parameter{
 					Name:     pathParam.Name,
 					In:       "path",
@@ -78,6 +90,20 @@ func Generate(filePath string) astra.ServiceFunction {
 					continue
 				}
 
+				// OpenAPI spec requires the use of a name, so bound parameters must be spread
+				if requestHeader.IsBound {
+					for propertyName, propertySchema := range boundProperties(s, requestHeader.Field, astTraversal.HeaderBindingTag) {
+						operation.Parameters = append(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   propertySchema,
+						})
+					}
+
+					continue
+				}
+
 				parameter := Parameter{
 					Name:     requestHeader.Name,
 					In:       "header",
@@ -97,17 +123,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 				// OpenAPI spec requires the use of a name, so bound parameters must be spread
 				if queryParam.IsBound {
-					field, found := findComponentByPackageAndType(s.Components, queryParam.Field.Package, queryParam.Field.Type)
-					if !found {
-						continue
-					}
-
-					component, bound := componentToSchema(s, field, astTraversal.FormBindingTag)
-					if !bound {
-						continue
-					}
-
-					for propertyName, propertySchema := range component.Properties {
+					for propertyName, propertySchema := range boundProperties(s, queryParam.Field, astTraversal.FormBindingTag) {
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index acca3a0..bdfdbee 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"maps"
 	"reflect"
+	"slices"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -162,6 +163,49 @@ func getQueryParamStyle(schema Schema) (style string, explode bool) {
 	return "form", false
 }
 
+// boundProperties finds the properties of a bound type, including the ones of its embedded types.
+func boundProperties(s *astra.Service, field astra.Field, bindingType astTraversal.BindingTagType) map[string]Schema {
+	properties := make(map[string]Schema)
+	addBoundProperties(s, field, bindingType, properties, make(map[string]bool))
+
+	return properties
+}
+
+// addBoundProperties adds the properties of a bound type that aren't known yet, its own before the ones of its embedded types.
+func addBoundProperties(s *astra.Service, field astra.Field, bindingType astTraversal.BindingTagType, properties map[string]Schema, visited map[string]bool) {
+	component, found := findComponentByPackageAndType(s.Components, field.Package, field.Type)
+	if !found || visited[component.Package+"."+component.Name] {
+		return
+	}
+	visited[component.Package+"."+component.Name] = true
+
+	schema, bound := componentToSchema(s, component, bindingType)
+	if !bound {
+		return
+	}
+
+	for _, ownSchema := range append([]Schema{schema}, schema.AllOf...) {
+		for name, property := range ownSchema.Properties {
+			if _, exists := properties[name]; !exists {
+				properties[name] = property
+			}
+		}
+	}
+
+	// An embedded type can be promoted over another one, so the fields have to be iterated over in a stable order
+	fieldNames := make([]string, 0, len(component.StructFields))
+	for fieldName := range component.StructFields {
+		fieldNames = append(fieldNames, fieldName)
+	}
+	slices.Sort(fieldNames)
+
+	for _, fieldName := range fieldNames {
+		if component.StructFields[fieldName].IsEmbedded {
+			addBoundProperties(s, component.StructFields[fieldName], bindingType, properties, visited)
+		}
+	}
+}
+
 // findComponentByPackageAndType finds the schema by the package and type.
 func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName string) (astra.Field, bool) {
 	for _, field := range fields {
-- 
2.43.0


From b9197d20eacb4fef1a9b38c4be8b66bd8efbf89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 30/58] fix: document a parameter once per location

A handler that reads the same parameter twice (or both by name and bound)
produced an invalid document with a duplicated parameter.
---
 outputs/openapi/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 4c2e8fa..fba157d 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -247,6 +248,11 @@ func Generate(filePath string) astra.ServiceFunction {
 				return operation.Parameters[i].In < operation.Parameters[j].In
 			})
 
+			// A parameter can be read several times, but it can only be documented once
+			operation.Parameters = slices.CompactFunc(operation.Parameters, func(a, b Parameter) bool {
+				return a.Name == b.Name && a.In == b.In
+			})
+
 			var endpointPath Path
 			if _, ok := paths[endpoint.Path]; !ok {
 				endpointPath = Path{}
-- 
2.43.0


From 266a0ab74ac286563b4449353ea32b9c7b8976cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 31/58] fix: generate Azure Functions bindings after a failed
 generation

---
 dir.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 3f5870f..2eeaf00 100644
--- a/dir.go
+++ b/dir.go
@@ -34,7 +34,13 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
+	// A generation that didn't complete can have left the directory behind
+	err := os.RemoveAll(tempDir)
+	if err != nil {
+		return "", err
+	}
+
+	err = os.Mkdir(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From c8850b2dd78c9082ea00c5d1a2eed57bde4c825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 32/58] fix: never replace the working directory with the Azure
 Functions bindings

---
 dir.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 2eeaf00..ce1b5bc 100644
--- a/dir.go
+++ b/dir.go
@@ -5,6 +5,8 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
+	"strings"
 )
 
 // This creates a new directory in the current working directory called .astra.
@@ -52,7 +54,16 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
+	// The destination is replaced, so it can't be the directory that everything is generated in (or one that contains it)
+	relativePath, err := filepath.Rel(destinationPath, sourcePath)
+	if err != nil {
+		return err
+	}
+	if relativePath != ".." && !strings.HasPrefix(relativePath, "../") {
+		return ErrOutputDirectoryPathRequired
+	}
+
+	_, err = os.Stat(destinationPath)
 	if !errors.Is(err, fs.ErrNotExist) {
 		err := os.RemoveAll(destinationPath)
 		if err != nil {
-- 
2.43.0


From 2e47277e45ececd3a5faac63d1625dd96978ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 33/58] fix: complete a parse in a directory that is not set up

---
 mainPackage.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..484eb35 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -24,7 +24,12 @@ func (s *Service) setupTempMainPackage() error {
 			return err
 		}
 	}
-	err := os.Mkdir(newMainPkgPath, 0755)
+	// The service can come from a cache somewhere else, without being set up in this directory
+	err := s.setupAstraDir()
+	if err != nil {
+		return err
+	}
+	err = os.Mkdir(newMainPkgPath, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8c2efa9490966d9777f87700d899afeb31cda474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 34/58] fix: parse the routes of a cache that are already
 parsed

---
 inputs/gin/parseRoute.go | 7 +++++++
 parseRoutes.go           | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 5b00fd9..91613d6 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -69,6 +69,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// The route can come from a cache, or from another input, that has already parsed it
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+
 	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
diff --git a/parseRoutes.go b/parseRoutes.go
index fddb5ac..c8a5a2f 100644
--- a/parseRoutes.go
+++ b/parseRoutes.go
@@ -4,6 +4,10 @@ package astra
 // CreateRoutes should be called before ParseRoutes.
 func (s *Service) ParseRoutes() error {
 	s.Log.Info().Msg("Parsing routes from inputs")
+
+	// Every route is parsed again, so the components of a previous parse (i.e. from a cache) are found again
+	s.Components = make([]Field, 0)
+
 	for _, input := range s.Inputs {
 		s.Log.Info().Str("mode", string(input.Mode)).Msg("Parsing routes from input")
 		err := input.ParseRoutes(s)
-- 
2.43.0


From 57bad4f8a33aac0e1cdaf4519185bf1a208d7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 35/58] fix: document embedded types with a tag as properties

---
 outputs/openapi/components.go | 25 ++++++++++++++++++++++++-
 outputs/openapi/schema.go     |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 95c3683..01eb2d5 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -152,6 +152,29 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// isPromoted checks if the properties of an embedded type are promoted to the type that embeds it.
+// They aren't if the embedded type isn't shown, or if it's serialized with a name of its own (which only the body bindings do).
+func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
+	if !field.IsEmbedded {
+		return false
+	}
+
+	fieldBinding, tagged := field.StructFieldBindingTags[bindingType]
+	if !tagged {
+		return true
+	}
+	if fieldBinding.NotShown {
+		return false
+	}
+
+	switch bindingType {
+	case astTraversal.JSONBindingTag, astTraversal.XMLBindingTag, astTraversal.YAMLBindingTag:
+		return fieldBinding.Name == fieldName
+	default:
+		return true
+	}
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -177,7 +200,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
-			if field.IsEmbedded {
+			if isPromoted(fieldName, field, bindingType) {
 				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index bdfdbee..bc5ade6 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -200,7 +200,7 @@ func addBoundProperties(s *astra.Service, field astra.Field, bindingType astTrav
 	slices.Sort(fieldNames)
 
 	for _, fieldName := range fieldNames {
-		if component.StructFields[fieldName].IsEmbedded {
+		if isPromoted(fieldName, component.StructFields[fieldName], bindingType) {
 			addBoundProperties(s, component.StructFields[fieldName], bindingType, properties, visited)
 		}
 	}
-- 
2.43.0


From 7aa927f24734271d5cca14df37901a751036c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 36/58] fix: write the schema of every binding that a component
 is referred to with

---
 outputs/openapi/components.go | 93 ++++++++++++++++++++++++++++++++---
 1 file changed, 86 insertions(+), 7 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 01eb2d5..b7f2e6f 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -30,6 +30,64 @@ func getPackageName(pkg string) string {
 	return pkg[strings.LastIndex(pkg, "/")+1:]
 }
 
+// schemaBindings finds the binding types that a component has a schema for (every one of them if none of its fields have a tag).
+func schemaBindings(component astra.Field) []astTraversal.BindingTagType {
+	bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+	bindingTags = slices.DeleteFunc(slices.Clone(bindingTags), func(bindingType astTraversal.BindingTagType) bool {
+		return bindingType == astTraversal.NoBindingTag
+	})
+	if len(bindingTags) == 0 {
+		return astTraversal.BindingTags
+	}
+
+	return bindingTags
+}
+
+// findBindingSpecificComponents finds the components that don't have the same schema for all of their binding types, so that they need a name for each of them.
+// A component that refers to one of them is specific too, as it has to refer to the one of the same binding type.
+func findBindingSpecificComponents(components []astra.Field) map[string]bool {
+	bindingSpecific := make(map[string]bool)
+	for found := true; found; {
+		found = false
+		for _, component := range components {
+			key := component.Package + "." + component.Name
+			bindingTypes := schemaBindings(component)
+			if !bindingSpecific[key] && len(bindingTypes) > 1 && isBindingSpecific(component, bindingTypes, bindingSpecific) {
+				bindingSpecific[key] = true
+				found = true
+			}
+		}
+	}
+
+	return bindingSpecific
+}
+
+// isBindingSpecific checks if a field doesn't have the same schema for all of the binding types.
+func isBindingSpecific(field astra.Field, bindingTypes []astTraversal.BindingTagType, bindingSpecific map[string]bool) bool {
+	for _, structField := range field.StructFields {
+		tags := structField.StructFieldBindingTags
+		if _, untagged := tags[astTraversal.NoBindingTag]; !untagged {
+			for _, bindingType := range bindingTypes {
+				if tag, tagged := tags[bindingType]; !tagged || tag != tags[bindingTypes[0]] {
+					return true
+				}
+			}
+		}
+
+		if isBindingSpecific(structField, bindingTypes, bindingSpecific) {
+			return true
+		}
+	}
+
+	for _, typeName := range []string{field.Type, field.SliceType, field.ArrayType, field.MapValueType} {
+		if bindingSpecific[field.Package+"."+typeName] {
+			return true
+		}
+	}
+
+	return false
+}
+
 // makeCollisionSafeNamesFromComponents creates collision safe names for the components.
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
@@ -48,6 +106,8 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		packageNames[packageName] = append(packageNames[packageName], component)
 	}
 
+	bindingSpecific := findBindingSpecificComponents(components)
+
 	for _, components := range packageNames {
 		// Iterate over every pair of components and see if there is ever a case where the full package path doesn't match up.
 		sameUntil := 0
@@ -77,7 +137,11 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
-			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+			bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+			uniqueBindings := bindingSpecific[component.Package+"."+component.Name]
+			if uniqueBindings {
+				bindingTags = schemaBindings(component)
+			}
 			for _, bindingType := range bindingTags {
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
@@ -152,6 +216,17 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// hasBindingTag checks if any of the fields of a struct has a tag for the binding type.
+func hasBindingTag(component astra.Field, bindingType astTraversal.BindingTagType) bool {
+	for _, field := range component.StructFields {
+		if _, tagged := field.StructFieldBindingTags[bindingType]; tagged {
+			return true
+		}
+	}
+
+	return false
+}
+
 // isPromoted checks if the properties of an embedded type are promoted to the type that embeds it.
 // They aren't if the embedded type isn't shown, or if it's serialized with a name of its own (which only the body bindings do).
 func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
@@ -211,13 +286,17 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 				continue
 			}
 
-			fieldBinding := field.StructFieldBindingTags[bindingType]
-			fieldNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
-			if fieldBinding == (astTraversal.BindingTag{}) && fieldNoBinding == (astTraversal.BindingTag{}) {
-				return Schema{}, false
+			fieldBinding, tagged := field.StructFieldBindingTags[bindingType]
+			if !tagged {
+				fieldBinding, tagged = field.StructFieldBindingTags[astTraversal.NoBindingTag]
 			}
-			if fieldBinding == (astTraversal.BindingTag{}) {
-				fieldBinding = fieldNoBinding
+			if !tagged {
+				if !hasBindingTag(component, bindingType) {
+					return Schema{}, false
+				}
+
+				// The struct is bound by its other fields, and the ones without a tag use their own name
+				fieldBinding = astTraversal.BindingTag{Name: fieldName}
 			}
 
 			if !fieldBinding.NotShown {
-- 
2.43.0


From e002072a35aaef9457e0bd85deb7f8097d5ff3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 37/58] fix: find the package that an import refers to when
 another one is renamed

---
 astTraversal/fileNode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/astTraversal/fileNode.go b/astTraversal/fileNode.go
index c9cc911..531f29d 100644
--- a/astTraversal/fileNode.go
+++ b/astTraversal/fileNode.go
@@ -21,7 +21,8 @@ func (f *FileNode) IsImportedPackage(ident string) bool {
 
 func (f *FileNode) FindImport(ident string) (FileImport, bool) {
 	for _, im := range f.Imports {
-		if im.Name == ident || im.Package.Name == ident {
+		// A package that is imported with a name can't be referred to with its own
+		if im.Name == ident || (im.Name == "" && im.Package.Name == ident) {
 			return im, true
 		}
 	}
-- 
2.43.0


From 2911626b1b81591ca0acc79aa85c4d5de81ac80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 38/58] fix: give every custom function its own builder

---
 inputs/gin/parseFunction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 9284f8f..9a1b29d 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -78,7 +78,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		var shouldBreak bool
 		for _, customFunc := range s.CustomFuncs {
 			var newRoute *astra.Route
-			newRoute, err = customFunc(ctxName, funcBuilder)
+			// The builder remembers the parameters that it was asked for, so every custom function has its own
+			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
 			if err != nil {
 				return true
 			}
-- 
2.43.0


From 6059948691c245bf54000d7bf5e5e42fa28118eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 39/58] fix: document named slices, arrays and maps of the
 types of another package

---
 astTraversal/result.go        |  3 +++
 astTraversal/type.go          |  6 ++++++
 clean.go                      |  3 +++
 outputs/openapi/components.go | 21 +++++++++++++++------
 substituteTypes.go            |  1 +
 types.go                      |  3 +++
 utils.go                      |  5 +++++
 7 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/astTraversal/result.go b/astTraversal/result.go
index 7c0b8cc..2c19b49 100644
--- a/astTraversal/result.go
+++ b/astTraversal/result.go
@@ -9,6 +9,9 @@ type Result struct {
 	// It's used as the package of a Slice, Array or Map Value
 	Package *PackageNode
 
+	// ElementPackage is the package of the elements of a named Slice, Array or Map, if it isn't the package of the named type
+	ElementPackage *PackageNode
+
 	// Name is the name of the result if it's a types.Named type
 	Name string
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 0bc82f2..04b6094 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -281,6 +281,12 @@ func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) erro
 		return err
 	}
 
+	// The component belongs to the package of its name, even if its elements come from another one
+	if namedUnderlyingResult.Package != pkg {
+		namedUnderlyingResult.ElementPackage = namedUnderlyingResult.Package
+		namedUnderlyingResult.Package = pkg
+	}
+
 	namedUnderlyingResult.Doc, err = t.Doc()
 	if err != nil {
 		return err
diff --git a/clean.go b/clean.go
index df8374d..16f04f6 100644
--- a/clean.go
+++ b/clean.go
@@ -56,6 +56,9 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 	if f.Package == mainPkg {
 		f.Package = "main"
 	}
+	if f.ElementPackage == mainPkg {
+		f.ElementPackage = "main"
+	}
 	if f.MapKeyPackage == mainPkg {
 		f.MapKeyPackage = "main"
 	}
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index b7f2e6f..a90e930 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -79,13 +79,22 @@ func isBindingSpecific(field astra.Field, bindingTypes []astTraversal.BindingTag
 		}
 	}
 
-	for _, typeName := range []string{field.Type, field.SliceType, field.ArrayType, field.MapValueType} {
-		if bindingSpecific[field.Package+"."+typeName] {
+	for _, typeName := range []string{field.SliceType, field.ArrayType, field.MapValueType} {
+		if bindingSpecific[elementPackage(field)+"."+typeName] {
 			return true
 		}
 	}
 
-	return false
+	return bindingSpecific[field.Package+"."+field.Type]
+}
+
+// elementPackage finds the package of the elements of a slice, an array or a map.
+func elementPackage(field astra.Field) string {
+	if field.ElementPackage != "" {
+		return field.ElementPackage
+	}
+
+	return field.Package
 }
 
 // makeCollisionSafeNamesFromComponents creates collision safe names for the components.
@@ -322,7 +331,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, elementPackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -338,7 +347,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, elementPackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -355,7 +364,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, elementPackage(component))
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
diff --git a/substituteTypes.go b/substituteTypes.go
index 1714c2f..92689f7 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -24,5 +24,6 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 		component.StructFields = nil
 		component.SliceType = ""
 		component.MapValueType = ""
+		component.ElementPackage = ""
 	}
 }
diff --git a/types.go b/types.go
index 48deddd..77575f0 100644
--- a/types.go
+++ b/types.go
@@ -66,6 +66,7 @@ type Processable struct {
 // It also contains whether the field is required and whether it is embedded.
 // If the field is a slice, it contains the type of the slice (package is the package of the type).
 // If the field is a map, it contains the key and value types of the map (and the key package, we treat the package as the value package).
+// If the field is a named slice, array or map, it contains the package of its elements if it isn't its own.
 // If the field is a struct, it contains the fields of the struct.
 type Field struct {
 	Package string `json:"package,omitempty" yaml:"package,omitempty"`
@@ -86,6 +87,8 @@ type Field struct {
 	MapKeyType    string `json:"mapKeyType,omitempty" yaml:"mapKeyType,omitempty"`
 	MapValueType  string `json:"mapValueType,omitempty" yaml:"mapValueType,omitempty"`
 
+	ElementPackage string `json:"elementPackage,omitempty" yaml:"elementPackage,omitempty"`
+
 	StructFields              map[string]Field              `json:"structFields,omitempty" yaml:"structFields,omitempty"`
 	StructFieldBindingTags    astTraversal.BindingTagMap    `json:"structFieldBindingTags,omitempty" yaml:"structFieldBindingTags,omitempty"`
 	StructFieldValidationTags astTraversal.ValidationTagMap `json:"structFieldValidationTags,omitempty" yaml:"structFieldValidationTags,omitempty"`
diff --git a/utils.go b/utils.go
index adaaa9b..bb92bd1 100644
--- a/utils.go
+++ b/utils.go
@@ -44,6 +44,11 @@ func ParseResultToField(result astTraversal.Result) Field {
 		field.MapKeyPackage = result.MapKeyPackage.Path()
 	}
 
+	// If the elements of a named type come from another package, we need to get the package path for the elements.
+	if result.ElementPackage != nil {
+		field.ElementPackage = result.ElementPackage.Path()
+	}
+
 	// If the struct fields are populated, we need to parse them.
 	if result.StructFields != nil {
 		field.StructFields = make(map[string]Field)
-- 
2.43.0


From db10370e75d4463da9d72e4f0097d60dd5135282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:50 +0000
Subject: [PATCH 40/58] fix: load the packages of every working directory

---
 astTraversal/loadPackage.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 0fe9305..5dd2d6c 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -11,7 +11,9 @@ var cachedPackages = make(map[string]*packages.Package)
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
-	if pkg, ok := cachedPackages[pkgPath]; ok {
+	// The same path can be another package in another working directory
+	cacheKey := workDir + "\x00" + pkgPath
+	if pkg, ok := cachedPackages[cacheKey]; ok {
 		return pkg, nil
 	}
 
@@ -20,7 +22,7 @@ func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
 		return nil, err
 	}
 
-	cachedPackages[pkgPath] = pkg
+	cachedPackages[cacheKey] = pkg
 
 	return pkg, nil
 }
-- 
2.43.0


From 78ae79f656cd64800a09c5345d92e2cc4bf37e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:50 +0000
Subject: [PATCH 41/58] fix: find handlers in packages with a dot in their name

---
 utils/splitHandlerPath.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..2a4d741 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -16,7 +19,12 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 
 	// Remove the last dot-separated part from the path parts
 	pathParts = pathParts[:len(pathParts)-1]
-	pathParts = append(pathParts, handlerParts[0])
+	// The dots of the last path part are escaped, as it's followed by the handler
+	lastPathPart, err := url.PathUnescape(handlerParts[0])
+	if err != nil {
+		lastPathPart = handlerParts[0]
+	}
+	pathParts = append(pathParts, lastPathPart)
 
 	// Remove the first handler part from the handler parts
 	handlerParts = handlerParts[1:]
-- 
2.43.0


From 344be8300580b184accb07afc27c728beb773412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 42/58] fix: follow the context into every function that is
 declared

---
 astTraversal/callExpression.go | 16 ++++++++++
 astTraversal/packageNode.go    | 53 ++++++++++++++++++++++++++++++++++
 2 files changed, 69 insertions(+)

diff --git a/astTraversal/callExpression.go b/astTraversal/callExpression.go
index fb7dc06..149db00 100644
--- a/astTraversal/callExpression.go
+++ b/astTraversal/callExpression.go
@@ -25,6 +25,22 @@ func (t *BaseTraverser) CallExpression(node ast.Node) (*CallExpressionTraverser,
 }
 
 func (c *CallExpressionTraverser) Function() (*FunctionTraverser, error) {
+	// The type checker knows which function is called, however its package is imported and whether it's a method or not
+	if funcType, err := c.Type(); err == nil && funcType.Pkg() != nil {
+		pkg := c.Traverser.Packages.FindOrAdd(funcType.Pkg().Path())
+		_, err = c.Traverser.Packages.Get(pkg)
+		if err != nil {
+			return nil, err
+		}
+
+		decl, file, err := pkg.FindDeclForFunc(funcType)
+		if err == nil {
+			c.Traverser.activeFile = file
+
+			return c.Traverser.Function(decl)
+		}
+	}
+
 	decl, err := c.Traverser.FindDeclarationForNode(c.Node.Fun)
 	if err != nil {
 		return nil, err
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..5ac2cbf 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -89,6 +89,59 @@ func (p *PackageNode) FindASTForType(typeName string) (ast.Node, *FileNode, erro
 	return nil, nil, fmt.Errorf("type %s not found in package %s", typeName, p.Path())
 }
 
+// FindDeclForFunc finds the declaration of a function or a method of the package, and the file that it's in.
+func (p *PackageNode) FindDeclForFunc(fn *types.Func) (*ast.FuncDecl, *FileNode, error) {
+	receiver := ""
+	if signature, ok := fn.Type().(*types.Signature); ok && signature.Recv() != nil {
+		receiverType := signature.Recv().Type()
+		if pointer, ok := receiverType.(*types.Pointer); ok {
+			receiverType = pointer.Elem()
+		}
+
+		named, ok := receiverType.(*types.Named)
+		if !ok {
+			return nil, nil, fmt.Errorf("method %s has no declaration in package %s", fn.Name(), p.Path())
+		}
+		receiver = named.Obj().Name()
+	}
+
+	for _, file := range p.Files {
+		for _, decl := range file.AST.Decls {
+			funcDecl, ok := decl.(*ast.FuncDecl)
+			if ok && funcDecl.Body != nil && funcDecl.Name.Name == fn.Name() && receiverName(funcDecl) == receiver {
+				return funcDecl, file, nil
+			}
+		}
+	}
+
+	return nil, nil, fmt.Errorf("function %s not found in package %s", fn.Name(), p.Path())
+}
+
+// receiverName finds the name of the type that a method belongs to (empty if the function isn't a method).
+func receiverName(funcDecl *ast.FuncDecl) string {
+	if funcDecl.Recv == nil || len(funcDecl.Recv.List) == 0 {
+		return ""
+	}
+
+	expr := funcDecl.Recv.List[0].Type
+	for {
+		switch n := expr.(type) {
+		case *ast.ParenExpr:
+			expr = n.X
+		case *ast.StarExpr:
+			expr = n.X
+		case *ast.IndexExpr:
+			expr = n.X
+		case *ast.IndexListExpr:
+			expr = n.X
+		case *ast.Ident:
+			return n.Name
+		default:
+			return ""
+		}
+	}
+}
+
 func (p *PackageNode) FindTypeForExpr(expr ast.Expr) (types.Type, error) {
 	if p.Package == nil {
 		return nil, fmt.Errorf("package %s not populated", p.Path())
-- 
2.43.0


From 1a955a5519a69f33383082e8f44f9b565173ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 43/58] fix: find the type of a value that is received from a
 channel

---
 astTraversal/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 2de5dea..6692bd4 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -159,7 +159,10 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 	case *ast.StarExpr:
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.UnaryExpr:
-		return e.Traverser.Expression(n.X).Type()
+		// A value that is received from a channel doesn't have the type of the channel
+		if n.Op != token.ARROW {
+			return e.Traverser.Expression(n.X).Type()
+		}
 	case *ast.Ident:
 		obj, err := e.File.Package.FindObjectForIdentFuzzy(n)
 		if err != nil {
-- 
2.43.0


From 43f1d6a1a3fa95c225361d4900369f6fa7b08f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 44/58] fix: find the handlers that are literals anywhere in
 their file

---
 inputs/gin/parseRoute.go | 104 +++++++++++++++------------------------
 1 file changed, 39 insertions(+), 65 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 91613d6..29170aa 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -83,86 +83,60 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		log.Debug().Msg("No path params found")
 	}
 
+	// A declared function is on the line that it's declared on
+	var handlerDecl *ast.FuncDecl
 	ast.Inspect(traverser.ActiveFile().AST, func(n ast.Node) bool {
-		if n == nil {
-			return true
-		}
-
 		funcDecl, ok := n.(*ast.FuncDecl)
+		if ok && funcDecl.Name.Name == funcName && baseRoute.LineNo == traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos()).Line {
+			handlerDecl = funcDecl
+		}
 
-		if ok && funcDecl.Name.Name == funcName {
-			log.Debug().Str("funcName", funcName).Msg("Found handler function")
-
-			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
-
-			if baseRoute.LineNo != startPos.Line {
-				// This means that the function is set inline in the route definition
-				log.Debug().Str("funcName", funcName).Msg("Function is inline")
-
-				ast.Inspect(funcDecl, func(n ast.Node) bool {
-					if n == nil {
-						return true
-					}
-
-					funcLit, ok := n.(*ast.FuncLit)
-
-					if ok {
-						inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
-
-						if baseRoute.LineNo == inlineStartPos.Line {
-							log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
-
-							function, err := traverser.Function(funcLit)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to get function")
-								return false
-							}
-
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, make(map[*ast.BlockStmt]bool))
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to parse inline function")
-								return false
-							}
-
-							log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
+		return !ok
+	})
 
-							return false
-						}
-					}
+	if handlerDecl != nil {
+		log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
-					return true
-				})
+		// Define the function name as the operation ID
+		baseRoute.OperationID = strcase.ToLowerCamel(funcName)
 
-				return false
-			}
+		parseHandler(s, traverser, handlerDecl, baseRoute)
 
-			// If the function is not inline, we can just parse it normally
-			function, err := traverser.Function(funcDecl)
-			if err != nil {
-				log.Error().Err(err).Msg("Failed to get function")
-				return false
-			}
+		return nil
+	}
 
-			// And define the function name as the operation ID
-			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
+	// Otherwise the function is a literal, which can be in any declaration of the file
+	if len(handler.HandlerParts) > 1 {
+		ast.Inspect(traverser.ActiveFile().AST, func(n ast.Node) bool {
+			funcLit, ok := n.(*ast.FuncLit)
+			if ok && baseRoute.LineNo == traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos()).Line {
+				log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
 
-			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, make(map[*ast.BlockStmt]bool))
-			if err != nil {
-				log.Error().Err(err).Msg("Failed to parse function")
-				return false
+				// The literal can be inside another one on the same line that isn't a handler
+				return !parseHandler(s, traverser, funcLit, baseRoute)
 			}
 
-			log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
+			return true
+		})
+	}
 
-			return false
-		}
+	return nil
+}
 
-		return true
-	})
+// parseHandler parses the function of a route, and finds out if it's a handler.
+func parseHandler(s *astra.Service, traverser *astTraversal.BaseTraverser, node ast.Node, route *astra.Route) bool {
+	function, err := traverser.Function(node)
+	if err != nil {
+		traverser.Log.Error().Err(err).Msg("Failed to get function")
+		return false
+	}
 
+	err = parseFunction(s, function, route, traverser.ActiveFile(), 0, make(map[*ast.BlockStmt]bool))
 	if err != nil {
-		return err
+		traverser.Log.Error().Err(err).Msg("Failed to parse function")
+	} else {
+		traverser.Log.Debug().Interface("route", *route).Msg("Adding route")
 	}
 
-	return nil
+	return function.FindArgumentNameByType(GinContextType, GinPackagePath, GinContextIsPointer) != ""
 }
-- 
2.43.0


From c7c59637c4a5a50d56775e3447ac71cfe97dcdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 45/58] fix: find handlers that are method values, generic or
 inlined into another package

---
 inputs/gin/createRoute.go |  12 ++-
 inputs/gin/parseRoute.go  | 162 ++++++++++++++++++++++++++++++++------
 2 files changed, 145 insertions(+), 29 deletions(-)

diff --git a/inputs/gin/createRoute.go b/inputs/gin/createRoute.go
index 5d553f4..a9692d8 100644
--- a/inputs/gin/createRoute.go
+++ b/inputs/gin/createRoute.go
@@ -21,10 +21,14 @@ func createRoute(s *astra.Service, file string, line int, info gin.RouteInfo) er
 		return err
 	}
 
-	relativePath, err := filepath.Rel(cwd, file)
-	if err != nil {
-		log.Error().Err(err).Msg("Failed to get relative path")
-		return err
+	// A method value doesn't have a file, as its function is generated by the compiler
+	relativePath := file
+	if filepath.IsAbs(file) {
+		relativePath, err = filepath.Rel(cwd, file)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get relative path")
+			return err
+		}
 	}
 
 	baseRoute := astra.Route{
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 29170aa..32cc8a2 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -3,13 +3,16 @@ package gin
 import (
 	"fmt"
 	"go/ast"
-	"path"
+	"go/types"
+	"path/filepath"
+	"strings"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 	"github.com/ls6-events/astra/utils"
 
 	"github.com/iancoleman/strcase"
+	"golang.org/x/tools/go/packages"
 )
 
 // parseRoute parses a route from a gin routes.
@@ -21,6 +24,26 @@ import (
 func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 	log := s.Log.With().Str("path", baseRoute.Path).Str("method", baseRoute.Method).Str("file", baseRoute.File).Logger()
 
+	// The route can come from a cache, or from another input, that has already parsed it
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+
+	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
+	if len(baseRoute.PathParams) > 0 {
+		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
+	} else {
+		log.Debug().Msg("No path params found")
+	}
+
+	// The method values of unnamed types are generated by the compiler, in no package
+	if strings.HasPrefix(baseRoute.Handler, "go:") {
+		log.Debug().Str("handler", baseRoute.Handler).Msg("The handler isn't in a package")
+		return nil
+	}
+
 	traverser := astTraversal.New(s.WorkDir).SetLog(&log)
 
 	traverser.Packages.AddPathLoader(func(path string) (string, error) {
@@ -41,7 +64,8 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
-	funcName := handler.FuncName()
+	// The name of a generic function ends with its type arguments
+	funcName, _, _ := strings.Cut(handler.FuncName(), "[")
 
 	pkgNode := traverser.Packages.AddPackage(pkgPath)
 
@@ -55,33 +79,26 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
-	for _, file := range pkgNode.Files {
-		if path.Base(file.FileName) == path.Base(baseRoute.File) {
-			log.Debug().Str("fileName", file.FileName).Msg("Found file")
-			traverser.SetActiveFile(file)
-			break
-		}
-	}
+	if methodDecl, methodFile := findHandlerMethod(traverser, pkgNode, handler); methodDecl != nil {
+		log.Debug().Str("fileName", methodFile.FileName).Msg("Found handler method")
+		traverser.SetActiveFile(methodFile)
 
-	if traverser.ActiveFile() == nil {
-		err := fmt.Errorf("could not find file: %s", baseRoute.File)
-		log.Error().Err(err).Msg("Failed to find file")
-		return err
-	}
+		// Define the method name as the operation ID
+		baseRoute.OperationID = strcase.ToLowerCamel(methodDecl.Name.Name)
 
-	// The route can come from a cache, or from another input, that has already parsed it
-	baseRoute.QueryParams = make([]astra.Param, 0)
-	baseRoute.Body = make([]astra.BodyParam, 0)
-	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
-	baseRoute.RequestHeaders = nil
-	baseRoute.ResponseHeaders = nil
+		parseHandler(s, traverser, methodDecl, baseRoute)
 
-	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
-	if len(baseRoute.PathParams) > 0 {
-		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
-	} else {
-		log.Debug().Msg("No path params found")
+		return nil
+	}
+
+	file := findHandlerFile(s, traverser, pkgNode, baseRoute.File)
+	if file == nil {
+		// The route is still documented, without anything of its handler
+		log.Error().Msg("Failed to find file")
+		return nil
 	}
+	log.Debug().Str("fileName", file.FileName).Msg("Found file")
+	traverser.SetActiveFile(file)
 
 	// A declared function is on the line that it's declared on
 	var handlerDecl *ast.FuncDecl
@@ -123,6 +140,101 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 	return nil
 }
 
+// findHandlerFile finds the file that the function of a handler is written in.
+// It's usually in the package of the handler, but a literal that's inlined into another package is named after that one.
+func findHandlerFile(s *astra.Service, traverser *astTraversal.BaseTraverser, pkgNode *astTraversal.PackageNode, fileName string) *astTraversal.FileNode {
+	absolutePath := fileName
+	if !filepath.IsAbs(absolutePath) {
+		absolutePath = filepath.Join(s.WorkDir, fileName)
+	}
+	if abs, err := filepath.Abs(absolutePath); err == nil {
+		absolutePath = abs
+	}
+
+	for _, file := range pkgNode.Files {
+		if file.FileName == absolutePath {
+			return file
+		}
+	}
+
+	visited := make(map[string]bool)
+	queue := []*packages.Package{pkgNode.Package}
+	for len(queue) > 0 {
+		pkg := queue[0]
+		queue = queue[1:]
+
+		for importPath, imported := range pkg.Imports {
+			if visited[importPath] {
+				continue
+			}
+			visited[importPath] = true
+			queue = append(queue, imported)
+
+			for _, goFile := range imported.GoFiles {
+				if goFile != absolutePath {
+					continue
+				}
+
+				node := traverser.Packages.FindOrAdd(imported.PkgPath)
+				if _, err := traverser.Packages.Get(node); err != nil {
+					continue
+				}
+				for _, file := range node.Files {
+					if file.FileName == absolutePath {
+						return file
+					}
+				}
+			}
+		}
+	}
+
+	// The main package is a copy in another directory
+	for _, file := range pkgNode.Files {
+		if filepath.Base(file.FileName) == filepath.Base(fileName) {
+			return file
+		}
+	}
+
+	return nil
+}
+
+// methodValueSuffix is the suffix of the name of a method value.
+const methodValueSuffix = "-fm"
+
+// findHandlerMethod finds the method of a handler that's a method value (such as package.(*Type).Method-fm), and the file that it's in.
+func findHandlerMethod(traverser *astTraversal.BaseTraverser, pkgNode *astTraversal.PackageNode, handler utils.HandlerPath) (*ast.FuncDecl, *astTraversal.FileNode) {
+	if len(handler.HandlerParts) != 2 || !strings.HasSuffix(handler.HandlerParts[1], methodValueSuffix) {
+		return nil, nil
+	}
+
+	receiver, err := pkgNode.FindObjectForName(strings.TrimSuffix(strings.TrimPrefix(handler.HandlerParts[0], "(*"), ")"))
+	if err != nil {
+		return nil, nil
+	}
+
+	// A promoted method can be declared in another package
+	method, _, _ := types.LookupFieldOrMethod(receiver.Type(), true, pkgNode.Package.Types, strings.TrimSuffix(handler.HandlerParts[1], methodValueSuffix))
+	fn, ok := method.(*types.Func)
+	if !ok || fn.Pkg() == nil {
+		return nil, nil
+	}
+
+	methodNode := pkgNode
+	if fn.Pkg().Path() != pkgNode.Package.PkgPath {
+		methodNode = traverser.Packages.FindOrAdd(fn.Pkg().Path())
+		if _, err = traverser.Packages.Get(methodNode); err != nil {
+			return nil, nil
+		}
+	}
+
+	decl, file, err := methodNode.FindDeclForFunc(fn)
+	if err != nil {
+		return nil, nil
+	}
+
+	return decl, file
+}
+
 // parseHandler parses the function of a route, and finds out if it's a handler.
 func parseHandler(s *astra.Service, traverser *astTraversal.BaseTraverser, node ast.Node, route *astra.Route) bool {
 	function, err := traverser.Function(node)
-- 
2.43.0


From 33b794edd5ee96b2b762369765ebebfc255f2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:24 +0000
Subject: [PATCH 46/58] fix: keep the references of types that are named for
 more bindings than the types they refer to

---
 outputs/openapi/components.go | 89 ++++++++++++++++++++++++++++++-----
 1 file changed, 76 insertions(+), 13 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index a90e930..8f64f81 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -30,10 +30,51 @@ func getPackageName(pkg string) string {
 	return pkg[strings.LastIndex(pkg, "/")+1:]
 }
 
-// schemaBindings finds the binding types that a component has a schema for (every one of them if none of its fields have a tag).
-func schemaBindings(component astra.Field) []astTraversal.BindingTagType {
+// componentIndex finds the components by their package and name.
+type componentIndex map[string]astra.Field
+
+func newComponentIndex(components []astra.Field) componentIndex {
+	index := make(componentIndex)
+	for _, component := range components {
+		index[component.Package+"."+component.Name] = component
+	}
+
+	return index
+}
+
+// element finds the component of the elements of a named slice, array or map.
+func (index componentIndex) element(component astra.Field) (astra.Field, bool) {
+	for _, typeName := range []string{component.SliceType, component.ArrayType, component.MapValueType} {
+		if typeName != "" && !astra.IsAcceptedType(typeName) {
+			element, found := index[elementPackage(component)+"."+typeName]
+			return element, found
+		}
+	}
+
+	return astra.Field{}, false
+}
+
+// nameBindings finds the binding types that a component is named for.
+// A named slice, array or map doesn't have names of its own, so it has the ones of its elements.
+func (index componentIndex) nameBindings(component astra.Field) []astTraversal.BindingTagType {
+	visited := make(map[string]bool)
+	for {
+		visited[component.Package+"."+component.Name] = true
+		element, found := index.element(component)
+		if !found || visited[element.Package+"."+element.Name] {
+			break
+		}
+		component = element
+	}
+
 	bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
-	bindingTags = slices.DeleteFunc(slices.Clone(bindingTags), func(bindingType astTraversal.BindingTagType) bool {
+
+	return bindingTags
+}
+
+// schemaBindings finds the binding types that a component has a schema for (every one of them if none of its fields have a tag).
+func (index componentIndex) schemaBindings(component astra.Field) []astTraversal.BindingTagType {
+	bindingTags := slices.DeleteFunc(slices.Clone(index.nameBindings(component)), func(bindingType astTraversal.BindingTagType) bool {
 		return bindingType == astTraversal.NoBindingTag
 	})
 	if len(bindingTags) == 0 {
@@ -45,14 +86,14 @@ func schemaBindings(component astra.Field) []astTraversal.BindingTagType {
 
 // findBindingSpecificComponents finds the components that don't have the same schema for all of their binding types, so that they need a name for each of them.
 // A component that refers to one of them is specific too, as it has to refer to the one of the same binding type.
-func findBindingSpecificComponents(components []astra.Field) map[string]bool {
+func (index componentIndex) findBindingSpecificComponents(components []astra.Field) map[string]bool {
 	bindingSpecific := make(map[string]bool)
 	for found := true; found; {
 		found = false
 		for _, component := range components {
 			key := component.Package + "." + component.Name
-			bindingTypes := schemaBindings(component)
-			if !bindingSpecific[key] && len(bindingTypes) > 1 && isBindingSpecific(component, bindingTypes, bindingSpecific) {
+			bindingTypes := index.schemaBindings(component)
+			if !bindingSpecific[key] && len(bindingTypes) > 1 && index.isBindingSpecific(component, bindingTypes, bindingSpecific) {
 				bindingSpecific[key] = true
 				found = true
 			}
@@ -63,7 +104,7 @@ func findBindingSpecificComponents(components []astra.Field) map[string]bool {
 }
 
 // isBindingSpecific checks if a field doesn't have the same schema for all of the binding types.
-func isBindingSpecific(field astra.Field, bindingTypes []astTraversal.BindingTagType, bindingSpecific map[string]bool) bool {
+func (index componentIndex) isBindingSpecific(field astra.Field, bindingTypes []astTraversal.BindingTagType, bindingSpecific map[string]bool) bool {
 	for _, structField := range field.StructFields {
 		tags := structField.StructFieldBindingTags
 		if _, untagged := tags[astTraversal.NoBindingTag]; !untagged {
@@ -74,18 +115,39 @@ func isBindingSpecific(field astra.Field, bindingTypes []astTraversal.BindingTag
 			}
 		}
 
-		if isBindingSpecific(structField, bindingTypes, bindingSpecific) {
+		if index.isBindingSpecific(structField, bindingTypes, bindingSpecific) {
 			return true
 		}
 	}
 
+	references := []string{field.Package + "." + field.Type}
 	for _, typeName := range []string{field.SliceType, field.ArrayType, field.MapValueType} {
-		if bindingSpecific[elementPackage(field)+"."+typeName] {
+		references = append(references, elementPackage(field)+"."+typeName)
+	}
+
+	for _, reference := range references {
+		if bindingSpecific[reference] {
 			return true
 		}
+
+		component, found := index[reference]
+		if !found {
+			continue
+		}
+
+		// The component can be bound by some of the binding types, but not by the others
+		nameBindings := index.nameBindings(component)
+		if slices.Contains(nameBindings, astTraversal.NoBindingTag) {
+			continue
+		}
+		for _, bindingType := range bindingTypes {
+			if slices.Contains(nameBindings, bindingType) != slices.Contains(nameBindings, bindingTypes[0]) {
+				return true
+			}
+		}
 	}
 
-	return bindingSpecific[field.Package+"."+field.Type]
+	return false
 }
 
 // elementPackage finds the package of the elements of a slice, an array or a map.
@@ -115,7 +177,8 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		packageNames[packageName] = append(packageNames[packageName], component)
 	}
 
-	bindingSpecific := findBindingSpecificComponents(components)
+	index := newComponentIndex(components)
+	bindingSpecific := index.findBindingSpecificComponents(components)
 
 	for _, components := range packageNames {
 		// Iterate over every pair of components and see if there is ever a case where the full package path doesn't match up.
@@ -146,10 +209,10 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
-			bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+			bindingTags := index.nameBindings(component)
 			uniqueBindings := bindingSpecific[component.Package+"."+component.Name]
 			if uniqueBindings {
-				bindingTags = schemaBindings(component)
+				bindingTags = index.schemaBindings(component)
 			}
 			for _, bindingType := range bindingTags {
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
-- 
2.43.0


From 0fad0ec6bcc6ffa412b94909771d6c86e4a70ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:24 +0000
Subject: [PATCH 47/58] fix: document mapped types for every binding

---
 outputs/openapi/components.go | 12 ++++++++++++
 outputs/openapi/generate.go   |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 8f64f81..e50bbe0 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -159,6 +159,18 @@ func elementPackage(field astra.Field) string {
 	return field.Package
 }
 
+// hideMappedTypes hides what the components with a type mapping consist of, as they have the same schema for every binding type.
+func hideMappedTypes(service *astra.Service, components []astra.Field) []astra.Field {
+	components = slices.Clone(components)
+	for i, component := range components {
+		if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
+			components[i] = astra.Field{Package: component.Package, Name: component.Name}
+		}
+	}
+
+	return components
+}
+
 // makeCollisionSafeNamesFromComponents creates collision safe names for the components.
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index fba157d..6e00624 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -33,7 +33,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 		s.Log.Debug().Msg("Making collision safe struct names")
 		collisionSafeNames = make(map[string]string)
-		makeCollisionSafeNamesFromComponents(s.Components)
+		makeCollisionSafeNamesFromComponents(hideMappedTypes(s, s.Components))
 
 		protocol := "http"
 		if s.Config.Secure {
-- 
2.43.0


From bb4d4cca3c391634759821046ed80ca5a8b08143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:18 +0000
Subject: [PATCH 48/58] fix: read integer literals in any base

---
 astTraversal/expression.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 6692bd4..1a5b236 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -50,8 +50,12 @@ func (e *ExpressionTraverser) Value() (string, error) {
 	switch n := e.Node.(type) {
 	case *ast.BasicLit:
 		value := n.Value
-		if n.Kind == token.STRING {
+		switch n.Kind {
+		case token.STRING:
 			return strconv.Unquote(value)
+		case token.INT:
+			// It can be written in another base, or with underscores
+			return constantValue(constant.MakeFromLiteral(value, n.Kind, 0)), nil
 		}
 
 		return value, nil
-- 
2.43.0


From d2a4087d3cb3e5c1c4fb10a99adeb622e56ed269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 49/58] fix: skip predeclared types when looking for the
 context argument

---
 astTraversal/function.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 7a3d44a..5eb1d46 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -70,7 +70,8 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			}
 		}
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		// The predeclared types (i.e. error) aren't in a package
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
-- 
2.43.0


From 0c758ce5be239ea8550dee2cca1aedf2f2b9e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:32 +0000
Subject: [PATCH 50/58] fix: name the component of a named pointer type

---
 astTraversal/type.go          | 3 ++-
 outputs/openapi/components.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 04b6094..e0ea8ac 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -152,7 +152,8 @@ func (t *TypeTraverser) Result() (Result, error) {
 			Package: pkg,
 		}
 	case *types.Pointer:
-		return t.Traverser.Type(n.Elem(), t.Package).Result()
+		// The name of a named pointer is the name of what it points to
+		return t.Traverser.Type(n.Elem(), t.Package).SetName(t.name).Result()
 	case *types.Slice:
 		sliceElemResult, err := t.Traverser.Type(n.Elem(), t.Package).Result()
 		if err != nil {
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index e50bbe0..4d5a178 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -452,7 +452,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else {
 		schema = mapPredefinedTypeFormat(component.Type)
 		if schema.Type == "" && !astra.IsAcceptedType(component.Type) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.Type, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.Type, elementPackage(component))
 			if componentBound {
 				schema = Schema{
 					Ref: componentRef,
-- 
2.43.0


From f6485963c3aacf1f727a03d3f261de298475b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:33 +0000
Subject: [PATCH 51/58] fix: substitute the predeclared types wherever they are
 used

---
 substituteTypes.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/substituteTypes.go b/substituteTypes.go
index 92689f7..81c5f68 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -26,4 +26,11 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 		component.MapValueType = ""
 		component.ElementPackage = ""
 	}
+
+	// The predeclared types aren't in a package, and are only known by what refers to them
+	for _, typeName := range []*string{&component.Type, &component.SliceType, &component.ArrayType, &component.MapValueType} {
+		if substitute, ok := substituteTypes[*typeName]; ok {
+			*typeName = substitute
+		}
+	}
 }
-- 
2.43.0


From bdba9aeadec8f98b1b7f5d5d8c104c36e5aad8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 52/58] fix: analyse the content type and the data of Data

---
 inputs/gin/parseFunction.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 9a1b29d..6a84351 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -220,20 +220,26 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return route, nil
 					})
 				case "Data":
-					currRoute, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					currRoute, err = funcBuilder.StatusCode().Value().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
+						contentType, ok := params[1].(string)
+						if !ok {
+							return nil, errors.New("failed to parse content type")
+						}
+
+						result, ok := params[2].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
 						}
 
 						returnType := astra.ReturnType{
-							StatusCode: statusCode,
-							Field:      astra.ParseResultToField(result),
+							StatusCode:  statusCode,
+							ContentType: contentType,
+							Field:       astra.ParseResultToField(result),
 						}
 
 						route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, returnType)
-- 
2.43.0


From f4bb48ebd3ed5914531f93e1ba32811c8bedb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 53/58] fix: find the value of every variable of a declaration

---
 astTraversal/packageNode.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 5ac2cbf..c72892b 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -232,7 +232,7 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 					return true
 				}
 
-				if n.Pos() == pos {
+				if n.Pos() == pos || declaresAtPos(n, pos) {
 					result = n
 					return false
 				}
@@ -251,6 +251,26 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 	return nil, fmt.Errorf("node at %s not found in package %s", node, p.Path())
 }
 
+// declaresAtPos returns whether a node is the declaration of a variable that isn't the first one that it declares (i.e. b in a, b := 1, 2).
+func declaresAtPos(node ast.Node, pos token.Pos) bool {
+	switch n := node.(type) {
+	case *ast.ValueSpec:
+		for _, name := range n.Names {
+			if name.Pos() == pos {
+				return true
+			}
+		}
+	case *ast.AssignStmt:
+		for _, expr := range n.Lhs {
+			if n.Tok == token.DEFINE && expr.Pos() == pos {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 // FindDocForType finds the documentation for a type in the package.
 func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	p.populateTypeDocMap()
-- 
2.43.0


From 0e96a558a4000e260b3cbb4dfe525478299d2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 54/58] fix: name a pointer to a type of another package for
 its bindings

---
 outputs/openapi/components.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 4d5a178..73877c3 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -120,12 +120,8 @@ func (index componentIndex) isBindingSpecific(field astra.Field, bindingTypes []
 		}
 	}
 
-	references := []string{field.Package + "." + field.Type}
-	for _, typeName := range []string{field.SliceType, field.ArrayType, field.MapValueType} {
-		references = append(references, elementPackage(field)+"."+typeName)
-	}
-
-	for _, reference := range references {
+	for _, typeName := range []string{field.Type, field.SliceType, field.ArrayType, field.MapValueType} {
+		reference := elementPackage(field) + "." + typeName
 		if bindingSpecific[reference] {
 			return true
 		}
-- 
2.43.0


From 989deb839be750e7e836e30e4e67b86167ba2f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:42 +0000
Subject: [PATCH 55/58] fix: give each path parameter of an Azure Functions
 route its own constraint

---
 outputs/azureFunctions/convertRoute.go | 27 +++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..439c80d 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,21 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
-
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
+	return utils.MapPathParams(route.Path, func(param string) string {
+		for _, pathParams := range route.PathParams {
+			azureType, ok := acceptedTypeMap[pathParams.Field.Type]
+			if !ok || pathParams.IsBound {
+				continue
 			}
 
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
+			if pathParams.IsRequired && param == ":"+pathParams.Name {
+				return "{" + pathParams.Name + ":" + azureType + "}"
+			}
+			if !pathParams.IsRequired && param == "*"+pathParams.Name {
+				return "{" + pathParams.Name + ":" + azureType + "?}"
 			}
 		}
-	}
 
-	return routeString
+		return param
+	})
 }
-- 
2.43.0


From 850c98e516ffecb73b726b89c8a2e19475fbb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 56/58] fix: write an output to the same path whenever it is
 generated

---
 outputs/json/generate.go    | 2 ++
 outputs/openapi/generate.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..70ea421 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -33,6 +33,8 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
+		// The path is only completed for this generation, the next one starts from the same path again
+		filePath := filePath
 		if !strings.HasSuffix(filePath, ".json") {
 			s.Log.Debug().Str("filePath", filePath).Msg("Adding .json suffix to file path")
 			filePath += ".json"
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 6e00624..fb676f9 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -332,6 +332,8 @@ func Generate(filePath string) astra.ServiceFunction {
 			Components: components,
 		}
 
+		// The path is only completed for this generation, the next one starts from the same path again
+		filePath := filePath
 		if !strings.HasSuffix(filePath, ".json") && !strings.HasSuffix(filePath, ".yaml") && !strings.HasSuffix(filePath, ".yml") {
 			s.Log.Debug().Msg("No file extension provided, defaulting to .json")
 			filePath += ".json"
-- 
2.43.0


From db65ff103af8e0be6feb4bea7ec3c55edb245a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:10 +0000
Subject: [PATCH 57/58] fix: copy the main package again after a tear down

---
 teardown.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teardown.go b/teardown.go
index 5fe623c..4555d5b 100644
--- a/teardown.go
+++ b/teardown.go
@@ -23,6 +23,9 @@ func (s *Service) Teardown() error {
 		}
 	}
 
+	// The main package has to be copied again for another parse
+	s.tempMainPackageName = ""
+
 	s.Log.Info().Msg("Tearing down complete")
 	return nil
 }
-- 
2.43.0


From ca51ae514b1f9dd8b5fac55c1d7bc9e7f9e12e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 58/58] fix: replace a route that is created again

---
 routes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/routes.go b/routes.go
index f2e6b2c..94589d5 100644
--- a/routes.go
+++ b/routes.go
@@ -1,7 +1,15 @@
 package astra
 
 // AddRoute adds a route to the service.
+// A route that is known already (i.e. from a cache, or from another run) is replaced.
 func (s *Service) AddRoute(route Route) {
+	for i, r := range s.Routes {
+		if r.Path == route.Path && r.Method == route.Method {
+			s.Routes[i] = route
+			return
+		}
+	}
+
 	s.Routes = append(s.Routes, route)
 }
 
-- 
2.43.0

