package main

import (
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"

	"verifharness/hnd"
)

//go:embed hnd/hnd.go
var hndSource string

// RHandler is a handler, and the mark of the line where it is (none for those that the compiler generates).
type RHandler struct {
	Mark string
	f    gin.HandlerFunc
}

var routeHandlers = []RHandler{
	{"Plain", hnd.Plain},
	{"Second", hnd.Second},
	{"", hnd.Controller.Get},
	{"", hnd.Value.Get},
	{"Make", hnd.Make(209)},
	{"Nested", hnd.Nested()},
	{"Lit", hnd.Lit},
	{"Lits0", hnd.Lits[0]},
	{"Lits1", hnd.Lits[1]},
	{"Gen", hnd.Gen[int]},
	{"Typed", gin.HandlerFunc(hnd.Typed)},
}

// markLine is the line of a mark in the source of the handlers.
func markLine(mark string) int {
	for i, l := range strings.Split(hndSource, "\n") {
		if strings.HasSuffix(l, "// @"+mark) {
			return i + 1
		}
	}
	return 0
}

// RReg is a registration: with a router, in a group, behind a number of middlewares.
type RReg struct {
	Router int    `json:"router"`
	Kind   string `json:"kind"` // handle, any, static
	Group  string `json:"group"`
	Method string `json:"method"`
	Path   string `json:"path"`
	H      int    `json:"h"`
	Mw     int    `json:"mw"`
}

// RAtom is a part of a pattern.
type RAtom struct {
	K string `json:"k"` // lit, any, seg
	V string `json:"v"`
}

// RDeny is a rule: exact, prefix, suffix, contains (a function), or a regular expression.
type RDeny struct {
	K     string  `json:"k"`
	V     string  `json:"v"`
	Start bool    `json:"start"`
	End   bool    `json:"end"`
	Atoms []RAtom `json:"atoms"`
}

func (d RDeny) option() astra.Option {
	switch d.K {
	case "exact":
		return astra.WithPathDenyList(d.V)
	case "prefix":
		return astra.WithPathDenyListFunc(func(p string) bool { return strings.HasPrefix(p, d.V) })
	case "suffix":
		return astra.WithPathDenyListFunc(func(p string) bool { return strings.HasSuffix(p, d.V) })
	case "contains":
		return astra.WithPathDenyListFunc(func(p string) bool { return strings.Contains(p, d.V) })
	}
	re := ""
	if d.Start {
		re = "^"
	}
	for _, a := range d.Atoms {
		switch a.K {
		case "lit":
			re += regexp.QuoteMeta(a.V)
		case "any":
			re += ".*"
		case "seg":
			re += "[^/]+"
		}
	}
	if d.End {
		re += "$"
	}
	return astra.WithPathDenyListRegex(regexp.MustCompile(re))
}

type RouteCase struct {
	ID      int               `json:"id"`
	Routers int               `json:"routers"`
	Regs    []RReg            `json:"regs"`
	Denies  []RDeny           `json:"denies"`
	Late    bool              `json:"late"` // the routes are registered after the service was made
	Files   map[string]string `json:"files"`
	Targets []PRoute          `json:"targets"` // what the routes are analysed as, by the number of their handler
	Fns     json.RawMessage   `json:"fns"`
	Prog    json.RawMessage   `json:"prog"`
}

func register(engines []*gin.Engine, regs []RReg) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("the router does not take a route: %v", r)
		}
	}()
	for _, r := range regs {
		var g gin.IRoutes = engines[r.Router-1]
		if r.Group != "" {
			g = engines[r.Router-1].Group(r.Group)
		}
		hs := []gin.HandlerFunc{}
		for i := 0; i < r.Mw; i++ {
			hs = append(hs, hnd.Middleware)
		}
		switch r.Kind {
		case "static":
			g.StaticFS(r.Path, http.Dir("."))
		case "any":
			g.Any(r.Path, append(hs, routeHandlers[r.H-1].f)...)
		default:
			g.Handle(r.Method, r.Path, append(hs, routeHandlers[r.H-1].f)...)
		}
	}
	return nil
}

func runRouteCase(c *RouteCase, dir string) (M, error) {
	engines := []*gin.Engine{}
	opts := []astra.Option{quiet(), astra.WithConfig(mainConfig), astra.WithCustomWorkDir(dir)}
	for i := 0; i < c.Routers; i++ {
		engines = append(engines, gin.New())
		opts = append(opts, inputs.WithGinInput(engines[i]))
	}
	for _, d := range c.Denies {
		opts = append(opts, d.option())
	}
	opts = append(opts, outputs.WithOpenAPIOutput("openapi.json"), outputs.WithOpenAPIOutput("openapi.yaml"))
	if !c.Late {
		if err := register(engines, c.Regs); err != nil {
			return nil, err
		}
	}
	s := astra.New(opts...)
	if c.Late {
		if err := register(engines, c.Regs); err != nil {
			return nil, err
		}
	}
	obs := M{"err": "", "created": []M{}, "routes": []CRoute{}, "comps": []CField{}, "docs": map[string]DocObs{}}
	err := protect(s.SetupParse)
	if err != nil {
		obs["err"] = "create: " + err.Error()
		return obs, nil
	}
	cwd, err := os.Getwd()
	if err != nil {
		return nil, err
	}
	created := []M{}
	byName := map[string]int{}
	for i, h := range routeHandlers {
		byName[runtime.FuncForPC(reflect.ValueOf(h.f).Pointer()).Name()] = i + 1
	}
	for i := range s.Routes {
		r := &s.Routes[i]
		h := byName[r.Handler]
		file := r.File
		if !filepath.IsAbs(file) && !strings.HasPrefix(file, "<") {
			file = filepath.Join(cwd, file)
		}
		// the file and the line are those of the mark of the handler
		where := "elsewhere"
		if h > 0 && routeHandlers[h-1].Mark == "" {
			where = "mark"
		} else if h > 0 && strings.HasSuffix(file, "/harness/hnd/hnd.go") && r.LineNo == markLine(routeHandlers[h-1].Mark) {
			where = "mark"
		}
		created = append(created, M{"method": r.Method, "path": r.Path, "h": h, "where": where, "name": r.Handler})
		t := c.Targets[h]
		r.Handler, r.File, r.LineNo = t.Handler, t.File, t.Line
	}
	obs["created"] = created
	if err := bounded(120*time.Second, s.CompleteParse); err != nil {
		obs["err"] = "complete: " + err.Error()
		return obs, nil
	}
	obs["routes"] = canonRoutes(s.Routes)
	obs["comps"] = canonFields(s.Components)
	docs := map[string]DocObs{}
	for _, k := range []string{"json", "yaml"} {
		b, err := os.ReadFile(filepath.Join(dir, "openapi."+k))
		docs[k] = observeDoc(b, err, k == "yaml")
	}
	obs["docs"] = docs
	return obs, nil
}

func runRoutes(in *json.Decoder, out *json.Encoder, scratch string) error {
	dir := filepath.Join(scratch, "prog")
	first := true
	for {
		var c RouteCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		// the analysed program is the same for every case
		if first {
			if err := writeModule(dir, "ex.com/m", c.Files); err != nil {
				return err
			}
			first = false
		}
		obs, err := runRouteCase(&c, dir)
		if err != nil {
			return fmt.Errorf("case %d: %w", c.ID, err)
		}
		if err := out.Encode(M{"id": c.ID, "regs": c.Regs, "denies": c.Denies, "prog": c.Prog, "fns": c.Fns, "obs": obs}); err != nil {
			return err
		}
		if err := flush(); err != nil {
			return err
		}
	}
}
