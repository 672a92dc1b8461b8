#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the properties are worded)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)

p('C01','Every registered route is documented, denied ones are not, nothing else is',
  'For every router given to a service, the documented operations are exactly the (method, path) pairs that are registered in the router and that no deny rule (exact path, regular expression or predicate) matches. Every operation is attached to the handler that the router would call for it. Routes of several routers of the same service are all documented.',
  ['inputs','configurations'],'Every set of routes (methods, groups, parameters, shared handlers, inline handlers) and every combination of deny rules.',
  'The tests register a handful of fixed routes and one deny rule of each kind; the interaction of several rules, methods, shared paths and handlers is unsampled.',
  ['inputs/gin/createRoutes.go','inputs/gin/createRoute.go','listing.go','routes.go','outputs/openapi/generate.go'],
  [('iterate the router and skip denied paths','inputs/gin/createRoutes.go'),('add/replace routes by path and method','routes.go'),('method dispatch in the paths object','outputs/openapi/generate.go')],
  ['Service.Routes after CreateRoutes','paths of the generated OpenAPI document'],
  [('routes','list of discovered routes with handler, file and line','service.go')])
p('C02','Path parameters agree with the path template',
  'For every route, the documented path is the registered path with each :name replaced by {name} and each *name by {name*}, and the path parameters of the operation are exactly the parameters of the registered path, each of them once, with the required flag set for :name parameters. Binding a type to the path never adds, removes or renames a path parameter, it only refines its schema.',
  ['inputs'],'Every path built of literal, named and catch-all segments, at any position, with any binding of the path in the handler.',
  'The unit tests check a few literal paths; combinations of parameters, positions, repeated prefixes and bound types are not covered.',
  ['utils/pathParams.go','inputs/gin/parseRoute.go','outputs/openapi/generate.go','outputs/openapi/schema.go'],
  [('path parameter regular expression','utils/pathParams.go'),('path conversion and parameter list','outputs/openapi/generate.go')],
  ['Route.PathParams','path keys and parameters in the document'])
p('C03','A handler documents exactly the requests and responses its code can reach',
  'For every handler that is a function or a function literal, the query, form, header and body inputs and the responses that are documented are exactly those of the context calls in its body and in the functions it passes the context to, directly or indirectly and in any package, whatever control flow surrounds them. Each carries the name, status code, content type and Go type that the call is made with. Code that the handler does not pass the context to contributes nothing.',
  ['programs'],'Every handler program: any nesting of statements, any helper call graph including recursion, any constant expression for names and status codes, any kind of expression for values.',
  'The tests analyse a few dozen fixed handlers; call graphs, nesting, recursion, constant forms and their combinations are unbounded.',
  ['inputs/gin/parseFunction.go','inputs/gin/parseRoute.go','contextFuncBuilder.go','astTraversal/expression.go','astTraversal/callExpression.go','astTraversal/traverser.go','astTraversal/function.go','astTraversal/extractStatusCode.go'],
  [('AST walk that follows context calls and helper calls','inputs/gin/parseFunction.go'),('value and type resolution of arguments','astTraversal/expression.go')],
  ['Service.Routes after ParseRoutes'],
  [('route under construction','lists of inputs and responses','types.go'),('visited bodies','functions already analysed for the route','inputs/gin/parseFunction.go')])
p('C04','Analysis terminates, never crashes, and isolates what it cannot analyse',
  'For every program that compiles, the analysis terminates without crashing, including recursive types, recursive helpers, unnamed parameters and values without an initial value. A call or a field that cannot be analysed is left out, and nothing else of the same handler, type or service is lost because of it.',
  ['programs'],'Every compiling program over the supported syntax, with unanalysable calls, fields and functions at any position.',
  'The tests only analyse well-behaved programs, each construct alone; a crash or loss needs a construct at a position no test has.',
  ['inputs/gin/parseFunction.go','contextFuncBuilder.go','astTraversal/type.go','astTraversal/declaration.go','astTraversal/traverser.go'],
  [('visited bodies and added types','inputs/gin/parseFunction.go, astTraversal/type.go'),('errors of a call are skipped','inputs/gin/parseFunction.go')],
  ['termination of ParseRoutes','Service.Routes and Service.Components after ParseRoutes'])
p('C05','Custom functions see every call and override the built-in meaning',
  'Every call in a handler and in the functions it passes the context to is offered to the custom functions in the order they were registered, with the name of the context variable in scope. The first one that handles the call decides what it documents and the built-in meaning is not applied to it as well; when none handles it the built-in meaning applies unchanged.',
  ['programs','configurations'],'Every handler program and every list of custom functions.',
  'One fixture has two custom functions that handle one call each; order, overriding, errors and helpers are not covered.',
  ['inputs/gin/parseFunction.go','contextFuncBuilder.go'],
  [('loop over custom functions before the built-in switch','inputs/gin/parseFunction.go'),('parameter builder','contextFuncBuilder.go')],
  ['Service.Routes after ParseRoutes'])
p('C06','Components are exactly the reachable named types, once each',
  'After the analysis the components are exactly the named types that are reachable from the types of the documented requests and responses through pointers, slices, arrays, maps, struct fields and embedded types, in any package. Each of them appears once, under its own package and name.',
  ['programs'],'Every graph of named types over several packages, including cyclic ones and types that share a name.',
  'The fixtures hold a few acyclic type graphs; reachability is a property of all graphs.',
  ['astTraversal/type.go','safePushing.go','utils.go','inputs/gin/parseFunction.go'],
  [('named types are added after their underlying type','astTraversal/type.go'),('components are added once','safePushing.go')],
  ['Service.Components after ParseRoutes'])
p('C07','Component schemas mirror the Go types field by field',
  'For every component that is a struct, the properties of its schema are exactly the fields that are serialized under that binding, under their serialized names, each with the schema of its Go type (primitive type and format, array of, map of, or reference to the component of the named type); embedded structs are composed in and hidden fields are left out. Named non-struct types get the schema of their underlying type, and the doc comment of a type is its description.',
  ['programs','inputs'],'Every struct over the supported field types, tags and embeddings, in any package.',
  'Tests look at a few properties of a few structs; the product of field type, tag, embedding and nesting is not sampled.',
  ['astTraversal/type.go','astTraversal/tags.go','utils.go','outputs/openapi/components.go','formatTypes.go','accepted.go'],
  [('type traversal','astTraversal/type.go'),('tag parsing','astTraversal/tags.go'),('component to schema','outputs/openapi/components.go')],
  ['Service.Components','components.schemas of the document'])
p('C08','Enums list every constant of their type and only those',
  'The enum of a named basic type lists the exact values of all constants that are declared with that type in its package, in declaration order, whichever form the declaration has (explicit, implicit, iota, several names, expressions, any file of the package), and of nothing else. A type without constants has no enum.',
  ['programs'],'Every constant declaration form, basic kind, file layout and value.',
  'The fixture has one string and one int enum with literal values.',
  ['astTraversal/type.go','outputs/openapi/components.go','substituteTypes.go'],
  [('constants of the package are matched by type','astTraversal/type.go'),('enum of the schema','outputs/openapi/components.go')],
  ['EnumValues of Service.Components','enum of the schemas'])
p('C09','Types of the main package are always documented under main',
  'Handlers and types of the main package are analysed like those of any other package, and after the analysis they are known under the package main everywhere: in the components, in every place of every route that refers to a type, and in the outputs. The temporary copy that is used for the analysis is never visible in an output.',
  ['programs'],'Every program with types and handlers in main, mixed with other packages, at every position where a type can occur.',
  'Tests check main types in responses only.',
  ['mainPackage.go','clean.go','inputs/gin/parseRoute.go'],
  [('package names are rewritten','clean.go'),('main is loaded from a copy','mainPackage.go')],
  ['Service.Routes and Service.Components after Clean','outputs'])
p('C10','Every reference in a document resolves',
  'In every generated document, each schema reference, wherever it occurs, names a component schema that is defined in the same document.',
  ['inputs','programs'],'Every set of routes and components, every mix of binding tags, content types and packages.',
  'Tests look up a few references by hand.',
  ['outputs/openapi/components.go','outputs/openapi/schema.go','outputs/openapi/generate.go'],
  [('one table of names for references and definitions','outputs/openapi/components.go')],
  ['generated OpenAPI document'])
p('C11','Different types never share a component schema',
  'Two different types (different package or name) never share a component schema name, however similar their package paths and names are; and every component has a schema for each binding it can be used with. The package part of a name is only as long as needed to tell apart the packages with the same last element.',
  ['inputs'],'Every set of components over arbitrary package paths and names.',
  'One fixture has two packages with the same last element; three or more packages, suffixes of each other and different lengths are not covered.',
  ['outputs/openapi/components.go','bindingTags.go'],
  [('collision safe names','outputs/openapi/components.go')],
  ['component names of the generated document'])
p('C12','Each content type is documented with its own binding tags',
  'A type that is used with a content type or parameter location is documented with the property names that its tags for that binding give, including the types nested in it, and never with those of another binding. A type that has the same names for all its bindings has one schema, any other has one per binding.',
  ['inputs','programs'],'Every combination of tags over the fields of a graph of types and every content type or location they are used with.',
  'One fixture has one field with three tags; nested and mixed tags are not covered.',
  ['bindingTags.go','outputs/openapi/components.go','outputs/openapi/schema.go','astTraversal/tags.go'],
  [('binding tag of a content type','bindingTags.go'),('schema per binding','outputs/openapi/components.go')],
  ['generated OpenAPI document'])
p('C13','An operation documents every response and body of its route, exactly',
  'For every analysed route, the operation has exactly the status codes of its responses, each with the content types and schemas of its responses and with all response headers, and a request body exactly if the route reads one, with every bound type and every form field under its content type. Nothing of one route appears in another.',
  ['inputs'],'Every list of responses, bodies, form fields and headers, for every method and path.',
  'Tests look at single responses and bodies.',
  ['outputs/openapi/generate.go','outputs/openapi/schema.go'],
  [('operation construction','outputs/openapi/generate.go')],
  ['operations of the generated document'])
p('C14','Parameters are complete, unique per location, and shaped as they are read',
  'The query and header parameters of an operation are exactly the names its route reads, plus the properties of the types bound to that location (including those of embedded types), each at most once per location. Arrays, maps and bound properties keep their schema and serialization style.',
  ['inputs'],'Every list of read and bound parameters, with repeated names, within and across locations.',
  'Tests check one bound query struct and single parameters.',
  ['outputs/openapi/generate.go','outputs/openapi/schema.go'],
  [('spreading and de-duplication of parameters','outputs/openapi/generate.go')],
  ['parameters of the operations'])
p('C15','Document metadata comes from the configuration',
  'The title, description, version, contact, license and server URL (scheme, host, port and base path) of the document are those of the configuration, with the documented defaults for those that are missing. A configuration without a port is rejected, and a document is never generated without a configuration.',
  ['configurations'],'Every configuration.',
  'Tests use one complete configuration and single missing values.',
  ['config.go','configBuilder.go','outputs/openapi/generate.go'],
  [('validation and defaults','config.go'),('info and servers','outputs/openapi/generate.go')],
  ['info and servers of the document','errors of the builder and of the generation'])
p('C16','JSON and YAML documents say the same, wherever they are written',
  'For every service, the YAML and the JSON OpenAPI document describe the same values, and the file is written at the configured path under the working directory, with .json added when the extension is none of .json, .yaml and .yml.',
  ['inputs','configurations'],'Every service state (including values that need quoting) and every output path.',
  'Only the JSON document is looked at.',
  ['outputs/openapi/generate.go','outputs/openapi/types.go','outputs/json/generate.go'],
  [('one structure with two encodings','outputs/openapi/types.go')],
  ['generated files'])
p('C17','Generation is deterministic',
  'Generating twice from the same service or the same program gives byte-identical outputs, in the same process or in another one, and regardless of the order in which equal inputs were stored in maps.',
  ['inputs','schedules'],'Every service and program, every iteration order of maps.',
  'Snapshot tests compare one document; iteration order depends on chance.',
  ['outputs/openapi/generate.go','outputs/openapi/components.go','outputs/openapi/schema.go','bindingTags.go'],
  [('sorted fields and parameters','outputs/openapi')],
  ['bytes of the outputs of repeated runs'])
p('C18','A cache is a faithful copy of the service',
  'Saving a service to a cache and loading it into a new one restores the inputs, outputs, configuration, routes, components and type mappings in both cache formats, and continuing from any step of the cached pipeline gives the same outputs as an uninterrupted run. Loading a missing, unreadable or unsupported cache is an error and leaves the service as it was.',
  ['inputs','histories'],'Every service state and every step at which a run is resumed, for JSON and YAML.',
  'Tests only load one small fixed cache.',
  ['cache.go','service.go','types.go','config.go'],
  [('serialization tags','service.go, types.go'),('load replaces the fields','cache.go')],
  ['service after LoadCache','outputs of resumed runs'])
p('C19','The two-phase CLI run equals the one-shot run',
  'Setting up in the program and generating with the command line tool from the cache gives the same outputs as generating in the program, for every kind of output and input the cache can hold, from any directory. An unknown kind or a missing output path is an error and generates nothing.',
  ['programs','configurations','histories'],'Every program, output list and cache location.',
  'No test runs the command line tool.',
  ['cli/astra/cmd/generate.go','cli/astra/cmd/rebind.go','cli/cli.go','cache.go','parse.go'],
  [('options are bound again from the cache','cli/astra/cmd/rebind.go')],
  ['outputs and exit status of the command line tool'])
p('C20','An interrupted run never corrupts the cache nor blocks the next run',
  'Whenever a run is interrupted or fails, at any write or step, the cache file is either absent, or a complete cache of an earlier or the current step, never a truncated one. The next run in the same directory succeeds and gives the same outputs as a run in a clean directory.',
  ['crash_points','fault_sequences'],'Every prefix of the file system operations of a run, every failing step, followed by any further runs.',
  'No test interrupts a run.',
  ['cache.go','dir.go','mainPackage.go','setup.go','teardown.go','outputs/azureFunctions/generate.go'],
  [('write and rename','cache.go'),('left-over directories are replaced','mainPackage.go, dir.go')],
  ['files of the working directory after a crash','outputs of the next run'])
p('C21','A run only touches its outputs and its own directory',
  'A run creates and changes only its outputs and the .astra directory of the working directory, and never changes or removes any other file. After a complete run without a cache the .astra directory is gone; with a cache, or in a CLI phase, it holds the cache and its ignore file but not the temporary copy of the main package.',
  ['configurations','histories'],'Every combination of cache, CLI mode, outputs and previous content of the working directory.',
  'Tests look for single files after fixed calls.',
  ['dir.go','mainPackage.go','teardown.go','setup.go','outputs/azureFunctions/generate.go'],
  [('clean up','teardown.go'),('guarded replacement of output directories','dir.go')],
  ['snapshot of the working directory before and after'])
p('C22','Steps run in order, and an error stops the run and is returned',
  'A run performs set-up, route creation of every input in order, analysis of every input in order, clean-up, generation of every output in order and tear-down, each exactly once; after a step that fails no later step runs and the error is returned. A service without inputs or without outputs is rejected before anything is done, and with a cache enabled the cache holds the state after the last completed step.',
  ['fault_sequences','configurations','histories'],'Every list of inputs and outputs, every failing step, every sequence of the public calls.',
  'Tests call the steps one by one with stubs that succeed.',
  ['parse.go','setup.go','createRoutes.go','parseRoutes.go','clean.go','generate.go','teardown.go'],
  [('sequence of calls with early return','parse.go')],
  ['calls of scripted inputs and outputs','returned errors','cache file'])
p('C23','Services in one process do not influence each other',
  'What a service documents depends only on its own options and program, not on the services that were used before or alongside it in the same process.',
  ['histories'],'Every sequence of services, with their set-up, generation and loading interleaved.',
  'Each test uses one service and never compares it with a fresh process.',
  ['outputs/openapi/components.go','formatTypes.go','astTraversal/loadPackage.go','new.go'],
  [('names are computed per document','outputs/openapi/components.go'),('mappings are copied per service','formatTypes.go')],
  ['outputs of services in one process against outputs of fresh processes'])
p('C24','The package tree is consistent under concurrent use',
  'Adding and looking up packages from any number of goroutines behaves like some sequential order of the calls: a path always denotes the same single node, a lookup finds exactly the paths that were added and their prefixes, and the path of a node is the one it was added with.',
  ['schedules','inputs'],'Every interleaving of additions and look-ups of every set of paths.',
  'Tests add a few paths from one goroutine.',
  ['astTraversal/packageManager.go','astTraversal/packageNode.go'],
  [('mutex around the walk of the tree','astTraversal/packageManager.go')],
  ['nodes returned by the package manager'],
  [('tree','nodes by path element','astTraversal/packageManager.go')])
p('C25','Azure Functions bindings match the routes',
  'The Azure Functions output has exactly one directory per route, named after its handler, with an HTTP trigger for the method of the route and OPTIONS and the route template in which each path parameter has the constraint of its type, and an HTTP output binding. It replaces the previous content of its directory as a whole, and only once all bindings are written.',
  ['inputs','histories'],'Every set of routes with distinct handlers, every path and parameter type, every previous content of the directory.',
  'Tests cover single conversions of a route.',
  ['outputs/azureFunctions/generate.go','outputs/azureFunctions/convertRoute.go','outputs/azureFunctions/associatedMethods.go','dir.go'],
  [('generated in a temporary directory and moved','outputs/azureFunctions/generate.go, dir.go')],
  ['files below the output directory'])
p('C26','Type mappings apply exactly to the types they name',
  'A custom type mapping decides the schema of the named type it names wherever that type is documented, overriding the predefined mapping, and leaves every other type unchanged; a mapped type never exposes its fields or constants. Types that are substituted by default are documented as their substitute.',
  ['configurations','inputs'],'Every set of mappings and every set of components.',
  'One fixture maps one type.',
  ['formatTypes.go','substituteTypes.go','outputs/openapi/components.go','outputs/openapi/schema.go','clean.go'],
  [('mapping is looked up before the type is expanded','outputs/openapi/components.go'),('substitution','substituteTypes.go')],
  ['components.schemas of the document'])
p('C27','Operation ids and descriptions come from the handler',
  'An operation whose handler is a declared function has the camel-cased name of that function as its id and the doc comment of that function as its description; an inline handler has neither. They are never those of another handler or of a helper.',
  ['programs'],'Every set of declared and inline handlers, documented or not, shared by routes or passing the context to other documented functions.',
  'Tests check single handlers.',
  ['inputs/gin/parseRoute.go','inputs/gin/parseFunction.go','astTraversal/function.go','outputs/openapi/generate.go'],
  [('operation id of a declared handler','inputs/gin/parseRoute.go'),('doc at level zero only','inputs/gin/parseFunction.go')],
  ['Service.Routes','operations of the document'])
p('C28','The debug JSON output is the exact state, without duplicates',
  'The JSON output holds exactly the routes and components of the service, in order. Adding a response or component that is already known changes nothing, and adding any other keeps all the known ones in order and appends it.',
  ['inputs','histories'],'Every service state and every sequence of additions, including responses that only differ in one detail.',
  'Tests add two elements at most.',
  ['outputs/json/generate.go','safePushing.go','types.go'],
  [('marshal the state','outputs/json/generate.go'),('linear search for equal elements','safePushing.go')],
  ['generated JSON file','lists returned by the additions'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
