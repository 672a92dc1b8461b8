// Canonical, TLC-friendly projections of the values of astra: every record has
// all of its keys, maps are JSON objects, numbers of unknown kind are typed strings.
package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
)

type M = map[string]any

// jmap is a map that can be written as an empty array (as TLC writes the empty function).
type jmap[V any] map[string]V

func (m *jmap[V]) UnmarshalJSON(b []byte) error {
	out := map[string]V{}
	if string(b) != "[]" {
		if err := json.Unmarshal(b, &out); err != nil {
			return err
		}
	}
	*m = out
	return nil
}

// CTag is a binding tag of a field.
type CTag struct {
	Name string `json:"name"`
	Hide bool   `json:"hide"`
	Opt  bool   `json:"opt"`
}

// CField is a field (or a component).
type CField struct {
	Pkg     string       `json:"pkg"`
	Type    string       `json:"type"`
	Name    string       `json:"name"`
	Enum    []string     `json:"enum"`
	Emb     bool         `json:"emb"`
	Slice   string       `json:"slice"`
	Array   string       `json:"array"`
	Alen    int64        `json:"alen"`
	Mapk    string       `json:"mapk"`
	Mapkpkg string       `json:"mapkpkg"`
	Mapv    string       `json:"mapv"`
	Epkg    string       `json:"epkg"`
	Fields  jmap[CField] `json:"fields"`
	Forder  []string     `json:"forder"`
	Tags    jmap[CTag]   `json:"tags"`
	Vals    jmap[bool]   `json:"vals"`
	Doc     string       `json:"doc"`
	Req     bool         `json:"req"`
}

// CParam is a parameter or a body parameter (with a content type).
type CParam struct {
	Name  string `json:"name"`
	F     CField `json:"f"`
	Req   bool   `json:"req"`
	Arr   bool   `json:"arr"`
	Map   bool   `json:"map"`
	Bound bool   `json:"bound"`
	Ct    string `json:"ct"`
}

type CReturn struct {
	Code int    `json:"code"`
	Ct   string `json:"ct"`
	F    CField `json:"f"`
}

type CRoute struct {
	Handler string    `json:"handler"`
	File    string    `json:"file"`
	Line    int       `json:"line"`
	Method  string    `json:"method"`
	Path    string    `json:"path"`
	PP      []CParam  `json:"pp"`
	Query   []CParam  `json:"query"`
	Hdr     []CParam  `json:"hdr"`
	ResHdr  []CParam  `json:"reshdr"`
	Body    []CParam  `json:"body"`
	Ret     []CReturn `json:"ret"`
	Doc     string    `json:"doc"`
	OpID    string    `json:"opid"`
}

func bname(b astTraversal.BindingTagType) string {
	if b == astTraversal.NoBindingTag {
		return "none"
	}
	return string(b)
}

func bunname(b string) astTraversal.BindingTagType {
	if b == "none" {
		return astTraversal.NoBindingTag
	}
	return astTraversal.BindingTagType(b)
}

// canonValue writes a scalar as a typed string.
func canonValue(v any) string {
	switch x := v.(type) {
	case string:
		return "s:" + x
	case bool:
		return "b:" + strconv.FormatBool(x)
	case json.Number:
		s := x.String()
		if strings.ContainsAny(s, ".eE") {
			f, _ := x.Float64()
			return canonValue(f)
		}
		return "i:" + s
	case float64:
		if x == float64(int64(x)) && x < 1e15 && x > -1e15 {
			return "i:" + strconv.FormatInt(int64(x), 10)
		}
		return "f:" + strconv.FormatFloat(x, 'g', -1, 64)
	case float32:
		return canonValue(float64(x))
	case nil:
		return "n:"
	default:
		return "i:" + fmt.Sprint(x)
	}
}

func uncanonValue(s string) any {
	switch s[0] {
	case 's':
		return s[2:]
	case 'b':
		return s[2:] == "true"
	case 'f':
		f, _ := strconv.ParseFloat(s[2:], 64)
		return f
	case 'i':
		i, err := strconv.ParseInt(s[2:], 10, 64)
		if err != nil {
			u, _ := strconv.ParseUint(s[2:], 10, 64)
			return u
		}
		return int(i)
	}
	return nil
}

func canonField(f astra.Field) CField {
	c := CField{Pkg: f.Package, Type: f.Type, Name: f.Name, Emb: f.IsEmbedded, Slice: f.SliceType, Array: f.ArrayType, Alen: f.ArrayLength,
		Mapk: f.MapKeyType, Mapkpkg: f.MapKeyPackage, Mapv: f.MapValueType, Epkg: f.ElementPackage, Doc: f.Doc, Req: f.IsRequired,
		Enum: []string{}, Fields: map[string]CField{}, Forder: []string{}, Tags: map[string]CTag{}, Vals: map[string]bool{}}
	for _, e := range f.EnumValues {
		c.Enum = append(c.Enum, canonValue(e))
	}
	for n, sf := range f.StructFields {
		c.Fields[n] = canonField(sf)
		c.Forder = append(c.Forder, n)
	}
	sort.Strings(c.Forder)
	for b, t := range f.StructFieldBindingTags {
		c.Tags[bname(b)] = CTag{t.Name, t.NotShown, t.ReturnOptional}
	}
	for b, t := range f.StructFieldValidationTags {
		c.Vals[string(b)] = t.IsRequired
	}
	return c
}

func uncanonField(c CField) astra.Field {
	f := astra.Field{Package: c.Pkg, Type: c.Type, Name: c.Name, IsEmbedded: c.Emb, SliceType: c.Slice, ArrayType: c.Array, ArrayLength: c.Alen,
		MapKeyType: c.Mapk, MapKeyPackage: c.Mapkpkg, MapValueType: c.Mapv, ElementPackage: c.Epkg, Doc: c.Doc, IsRequired: c.Req}
	for _, e := range c.Enum {
		f.EnumValues = append(f.EnumValues, uncanonValue(e))
	}
	if c.Type == "struct" || len(c.Fields) > 0 {
		f.StructFields = map[string]astra.Field{}
	}
	for n, sf := range c.Fields {
		f.StructFields[n] = uncanonField(sf)
	}
	if len(c.Tags) > 0 {
		f.StructFieldBindingTags = astTraversal.BindingTagMap{}
	}
	for b, t := range c.Tags {
		f.StructFieldBindingTags[bunname(b)] = astTraversal.BindingTag{Name: t.Name, NotShown: t.Hide, ReturnOptional: t.Opt}
	}
	if len(c.Vals) > 0 {
		f.StructFieldValidationTags = astTraversal.ValidationTagMap{}
	}
	for b, r := range c.Vals {
		f.StructFieldValidationTags[astTraversal.ValidationTagType(b)] = astTraversal.ValidationTag{IsRequired: r}
	}
	return f
}

func canonParams(ps []astra.Param) []CParam {
	out := []CParam{}
	for _, p := range ps {
		out = append(out, CParam{Name: p.Name, F: canonField(p.Field), Req: p.IsRequired, Arr: p.IsArray, Map: p.IsMap, Bound: p.IsBound})
	}
	return out
}

func uncanonParams(ps []CParam) []astra.Param {
	out := []astra.Param{}
	for _, p := range ps {
		out = append(out, astra.Param{Name: p.Name, Field: uncanonField(p.F), IsRequired: p.Req, IsArray: p.Arr, IsMap: p.Map, IsBound: p.Bound})
	}
	return out
}

func canonRoute(r astra.Route) CRoute {
	c := CRoute{Handler: r.Handler, File: r.File, Line: r.LineNo, Method: r.Method, Path: r.Path, Doc: r.Doc, OpID: r.OperationID,
		PP: canonParams(r.PathParams), Query: canonParams(r.QueryParams), Hdr: canonParams(r.RequestHeaders), ResHdr: canonParams(r.ResponseHeaders),
		Body: []CParam{}, Ret: []CReturn{}}
	for _, p := range r.Body {
		c.Body = append(c.Body, CParam{Name: p.Name, F: canonField(p.Field), Req: p.IsRequired, Arr: p.IsArray, Map: p.IsMap, Bound: p.IsBound, Ct: p.ContentType})
	}
	for _, t := range r.ReturnTypes {
		c.Ret = append(c.Ret, CReturn{t.StatusCode, t.ContentType, canonField(t.Field)})
	}
	return c
}

func uncanonRoute(c CRoute) astra.Route {
	r := astra.Route{Handler: c.Handler, File: c.File, LineNo: c.Line, Method: c.Method, Path: c.Path, Doc: c.Doc, OperationID: c.OpID,
		PathParams: uncanonParams(c.PP), QueryParams: uncanonParams(c.Query), RequestHeaders: uncanonParams(c.Hdr), ResponseHeaders: uncanonParams(c.ResHdr)}
	for _, p := range c.Body {
		r.Body = append(r.Body, astra.BodyParam{Name: p.Name, Field: uncanonField(p.F), IsRequired: p.Req, IsArray: p.Arr, IsMap: p.Map, IsBound: p.Bound, ContentType: p.Ct})
	}
	for _, t := range c.Ret {
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: t.Code, ContentType: t.Ct, Field: uncanonField(t.F)})
	}
	return r
}

func canonRoutes(rs []astra.Route) []CRoute {
	out := []CRoute{}
	for _, r := range rs {
		out = append(out, canonRoute(r))
	}
	return out
}

func canonFields(fs []astra.Field) []CField {
	out := []CField{}
	for _, f := range fs {
		out = append(out, canonField(f))
	}
	return out
}

func uncanonRoutes(rs []CRoute) []astra.Route {
	out := []astra.Route{}
	for _, r := range rs {
		out = append(out, uncanonRoute(r))
	}
	return out
}

func uncanonFields(fs []CField) []astra.Field {
	out := []astra.Field{}
	for _, f := range fs {
		out = append(out, uncanonField(f))
	}
	return out
}

// ---- documents ----

type reader struct {
	unknown []string
	refs    []string
}

func (r *reader) take(m M, ctx string, keys ...string) {
	for k := range m {
		ok := false
		for _, kk := range keys {
			if k == kk {
				ok = true
			}
		}
		if !ok {
			r.unknown = append(r.unknown, ctx+":"+k)
		}
	}
}

func asM(v any) M {
	m, _ := v.(map[string]any)
	return m
}

func asS(v any) string {
	if v == nil {
		return ""
	}
	if s, ok := v.(string); ok {
		return s
	}
	return "?" + canonValue(v)
}

func asB(v any) bool { b, _ := v.(bool); return b }

func asI(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case json.Number:
		i, _ := x.Int64()
		return int(i)
	case float64:
		return int(x)
	}
	return 0
}

func asL(v any) []any { l, _ := v.([]any); return l }

func (r *reader) schema(v any, ctx string) M {
	m := asM(v)
	r.take(m, "schema", "type", "format", "$ref", "enum", "items", "additionalProperties", "properties", "allOf", "maxItems", "description")
	out := M{"type": asS(m["type"]), "format": asS(m["format"]), "ref": asS(m["$ref"]), "enum": []string{}, "items": []any{}, "addl": []any{},
		"props": M{}, "allOf": []any{}, "maxItems": asI(m["maxItems"]), "desc": asS(m["description"])}
	if out["ref"] != "" {
		r.refs = append(r.refs, asS(m["$ref"]))
	}
	en := []string{}
	for _, e := range asL(m["enum"]) {
		en = append(en, canonValue(e))
	}
	out["enum"] = en
	if it, ok := m["items"]; ok {
		out["items"] = []any{r.schema(it, ctx)}
	}
	if it, ok := m["additionalProperties"]; ok {
		out["addl"] = []any{r.schema(it, ctx)}
	}
	ps := M{}
	for k, p := range asM(m["properties"]) {
		ps[k] = r.schema(p, ctx)
	}
	out["props"] = ps
	all := []any{}
	for _, p := range asL(m["allOf"]) {
		all = append(all, r.schema(p, ctx))
	}
	out["allOf"] = all
	return out
}

func (r *reader) operation(v any) M {
	m := asM(v)
	r.take(m, "op", "description", "operationId", "parameters", "requestBody", "responses")
	params := []any{}
	sorted := true
	last := ""
	for _, p := range asL(m["parameters"]) {
		pm := asM(p)
		r.take(pm, "param", "name", "in", "required", "style", "explode", "schema")
		key := asS(pm["name"]) + "\x00" + asS(pm["in"])
		if key < last {
			sorted = false
		}
		last = key
		params = append(params, M{"name": asS(pm["name"]), "in": asS(pm["in"]), "required": asB(pm["required"]), "style": asS(pm["style"]),
			"explode": asB(pm["explode"]), "schema": r.schema(pm["schema"], "param")})
	}
	body := M{}
	hasBody := false
	if b, ok := m["requestBody"]; ok {
		hasBody = true
		r.take(asM(b), "body", "content")
		body = r.content(asM(b)["content"])
	}
	resp := M{}
	for code, rv := range asM(m["responses"]) {
		rm := asM(rv)
		r.take(rm, "response", "description", "headers", "content")
		hs := M{}
		for n, h := range asM(rm["headers"]) {
			hm := asM(h)
			r.take(hm, "header", "required", "schema")
			hs[n] = M{"required": asB(hm["required"]), "schema": r.schema(hm["schema"], "header")}
		}
		resp[code] = M{"desc": asS(rm["description"]), "headers": hs, "content": r.content(rm["content"])}
	}
	return M{"desc": asS(m["description"]), "opid": asS(m["operationId"]), "params": params, "sorted": sorted, "hasbody": hasBody, "body": body, "responses": resp}
}

func (r *reader) content(v any) M {
	out := M{}
	for ct, mt := range asM(v) {
		mm := asM(mt)
		r.take(mm, "media", "schema")
		out[ct] = r.schema(mm["schema"], "content")
	}
	return out
}

// canonDoc projects a parsed OpenAPI document.
func canonDoc(v any) M {
	r := &reader{unknown: []string{}, refs: []string{}}
	m := asM(v)
	r.take(m, "doc", "openapi", "info", "servers", "paths", "components")
	info := asM(m["info"])
	r.take(info, "info", "title", "description", "contact", "license", "version")
	contact, license := asM(info["contact"]), asM(info["license"])
	r.take(contact, "contact", "name", "url", "email")
	r.take(license, "license", "name", "url")
	servers := []any{}
	for _, s := range asL(m["servers"]) {
		r.take(asM(s), "server", "url")
		servers = append(servers, asS(asM(s)["url"]))
	}
	paths := M{}
	for p, pv := range asM(m["paths"]) {
		ops := M{}
		for meth, op := range asM(pv) {
			ops[meth] = r.operation(op)
		}
		paths[p] = ops
	}
	schemas := M{}
	comps := asM(m["components"])
	r.take(comps, "components", "schemas")
	for n, s := range asM(comps["schemas"]) {
		schemas[n] = r.schema(s, "component")
	}
	sort.Strings(r.refs)
	sort.Strings(r.unknown)
	return M{"openapi": asS(m["openapi"]),
		"info": M{"title": asS(info["title"]), "description": asS(info["description"]), "version": asS(info["version"]),
			"contact": M{"name": asS(contact["name"]), "url": asS(contact["url"]), "email": asS(contact["email"])},
			"license": M{"name": asS(license["name"]), "url": asS(license["url"])}},
		"servers": servers, "paths": paths, "schemas": schemas, "refs": dedup(r.refs), "unknown": r.unknown}
}

func dedup(l []string) []string {
	out := []string{}
	for i, s := range l {
		if i == 0 || l[i-1] != s {
			out = append(out, s)
		}
	}
	return out
}
