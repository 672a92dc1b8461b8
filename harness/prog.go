package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"time"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
)

// PRoute is a route of a program, as a router would know it.
type PRoute struct {
	Handler string `json:"handler"`
	File    string `json:"file"`
	Line    int    `json:"line"`
	Method  string `json:"method"`
	Path    string `json:"path"`
}

type PCustom struct {
	Mode  string `json:"mode"`
	Label string `json:"label"`
}

// ProgCase is a program: its files, its routes, and what the specification knows of it.
type ProgCase struct {
	ID      int               `json:"id"`
	Mod     string            `json:"mod"`
	Files   map[string]string `json:"files"`
	Routes  []PRoute          `json:"routes"`
	Customs []PCustom         `json:"customs"`
	Mapping []CMapping        `json:"mapping"`
	Prog    json.RawMessage   `json:"prog"`
}

// Offer is a call that a custom function was given.
type Offer struct {
	Custom int    `json:"i"`
	Ctx    string `json:"ctx"`
	Label  string `json:"m"`
}

// writeModule writes the module of a program.
func writeModule(dir, mod string, files map[string]string) error {
	for name, text := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return err
		}
	}
	stub := filepath.Join(os.Getenv("VERIF_STUB"), "stubgin")
	return os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.21\n\nrequire github.com/gin-gonic/gin v1.9.1\n\nreplace github.com/gin-gonic/gin => "+stub+"\n"), 0o644)
}

// callLabel is the name of what is called.
func callLabel(call *ast.CallExpr) string {
	switch f := call.Fun.(type) {
	case *ast.SelectorExpr:
		return f.Sel.Name
	case *ast.Ident:
		return f.Name
	}
	return "?"
}

func customFunc(i int, c PCustom, offers *[]Offer) astra.CustomFunc {
	return func(ctxName string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
		label := callLabel(b.Traverser.Node)
		*offers = append(*offers, Offer{i, ctxName, label})
		if c.Mode == "none" || label != c.Label {
			return nil, nil
		}
		switch c.Mode {
		case "param":
			return b.Build(func(r *astra.Route, _ []any) (*astra.Route, error) {
				r.QueryParams = append(r.QueryParams, astra.Param{Name: fmt.Sprintf("cf%d_%s", i, label), Field: astra.Field{Type: "string"}})
				return r, nil
			})
		case "ret":
			r, err := b.StatusCode().ExpressionResult().Build(func(r *astra.Route, params []any) (*astra.Route, error) {
				r.ReturnTypes = astra.AddReturnType(r.ReturnTypes, astra.ReturnType{StatusCode: params[0].(int), ContentType: fmt.Sprintf("application/x-cf%d", i),
					Field: astra.ParseResultToField(params[1].(astTraversal.Result))})
				return r, nil
			})
			if err != nil {
				return nil, nil
			}
			return r, nil
		}
		return b.Route, nil
	}
}

var mainConfig = &astra.Config{Title: "t", Version: "1", Host: "localhost", Port: 8080}

// progService makes the service of a program that was written to dir.
func progService(dir string, c *ProgCase, offers *[]Offer, opts ...astra.Option) *astra.Service {
	opts = append([]astra.Option{quiet(), astra.WithConfig(mainConfig), astra.WithCustomWorkDir(dir), inputs.WithGinInput(nil)}, opts...)
	for _, m := range c.Mapping {
		opts = append(opts, astra.WithCustomTypeMappingSingle(m.Key, m.Type, m.Format))
	}
	for i, cf := range c.Customs {
		opts = append(opts, astra.WithCustomFunc(customFunc(i+1, cf, offers)))
	}
	s := astra.New(opts...)
	s.Inputs[0].CreateRoutes = func(s *astra.Service) error {
		for _, r := range c.Routes {
			s.AddRoute(astra.Route{Handler: r.Handler, File: r.File, LineNo: r.Line, Method: r.Method, Path: r.Path})
		}
		return nil
	}
	return s
}

var errHang = errors.New("hang")

// bounded runs f in at most the given time.
func bounded(d time.Duration, f func() error) error {
	done := make(chan error, 1)
	go func() { done <- protect(f) }()
	select {
	case err := <-done:
		return err
	case <-time.After(d):
		return errHang
	}
}

func compiles(dir string) error {
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%w: %s", err, out)
	}
	return nil
}

func runProgCase(c *ProgCase, dir string) (M, error) {
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	if err := writeModule(dir, c.Mod, c.Files); err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	offers := []Offer{}
	s := progService(dir, c, &offers, outputs.WithOpenAPIOutput("openapi.json"), outputs.WithOpenAPIOutput("openapi.yaml"), outputs.WithJSONOutput("debug.json"))
	if os.Getenv("VERIF_COMPILE") != "" {
		if err := compiles(dir); err != nil {
			return nil, fmt.Errorf("case %d does not compile: %w", c.ID, err)
		}
	}
	err := bounded(120*time.Second, s.Parse)
	obs := M{"err": errText(err), "offers": offers, "leak": false, "routes": []CRoute{}, "comps": []CField{}, "debug": observeFile(nil)}
	docs := map[string]DocObs{}
	if err != nil {
		if cerr := compiles(dir); cerr != nil {
			return nil, fmt.Errorf("case %d does not compile: %w", c.ID, cerr)
		}
		docs["json"] = DocObs{Err: err.Error(), Doc: canonDoc(M{})}
		obs["docs"] = docs
		return obs, nil
	}
	for _, k := range []string{"json", "yaml"} {
		b, err := os.ReadFile(filepath.Join(dir, "openapi."+k))
		docs[k] = observeDoc(b, err, k == "yaml")
		if bytes.Contains(b, []byte("astramain")) {
			obs["leak"] = true
		}
	}
	b, err := os.ReadFile(filepath.Join(dir, "debug.json"))
	if err != nil || bytes.Contains(b, []byte("astramain")) {
		obs["leak"] = true
	}
	obs["debug"] = observeFile(b)
	if _, err := os.Stat(filepath.Join(dir, ".astra")); !os.IsNotExist(err) {
		obs["leak"] = true
	}
	obs["docs"] = docs
	obs["routes"] = canonRoutes(s.Routes)
	obs["comps"] = canonFields(s.Components)
	return obs, nil
}

func runProg(in *json.Decoder, out *json.Encoder, scratch string) error {
	debug.SetMaxStack(256 << 20)
	for n := 0; ; n++ {
		var c ProgCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		dir := filepath.Join(scratch, fmt.Sprintf("p%d", n))
		obs, err := runProgCase(&c, dir)
		if err != nil {
			return err
		}
		if err := out.Encode(M{"id": c.ID, "prog": c.Prog, "obs": obs}); err != nil {
			return err
		}
		// a case that ends the process has to be the one after the last record
		if err := flush(); err != nil {
			return err
		}
	}
}
