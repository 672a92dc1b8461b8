package main

import (
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
)

// BCall is a call of the configuration builder.
type BCall struct {
	F string   `json:"f"`
	S string   `json:"s"`
	N int      `json:"n"`
	B bool     `json:"b"`
	C CContact `json:"c"`
	L CLicense `json:"l"`
}

// OutSpec is an output of a kind, at a path.
type OutSpec struct {
	Kind string `json:"kind"`
	Path string `json:"path"`
}

// PFile is a file or a directory of the working directory.
type PFile struct {
	Path string `json:"path"`
	Kind string `json:"kind"` // file, dir
}

type ConfigCase struct {
	ID    int       `json:"id"`
	Calls []BCall   `json:"calls"`
	Raw   []CConfig `json:"raw"`  // a configuration that is not built, or none
	Work  string    `json:"work"` // custom, relative, cwd
	Outs  []OutSpec `json:"outs"`
	Pre   []PFile   `json:"pre"`
	Svc   CSvc      `json:"svc"`
}

const oldContent = "old content, which is quite a bit longer than what is written over it would have to be for the rest of it to be noticed;"

// observeTree says what is in a directory.
func observeTree(dir string) (map[string]M, error) {
	out := map[string]M{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		if rel == "." {
			return nil
		}
		if d.IsDir() {
			out[rel] = M{"kind": "dir", "doc": M{}, "routes": []CRoute{}, "comps": []CField{}}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[rel] = observeFile(b)
		return nil
	})
	return out, err
}

func observeFile(b []byte) M {
	res := M{"kind": "other", "doc": M{}, "routes": []CRoute{}, "comps": []CField{}}
	if len(b) >= len(oldContent) && string(b[:len(oldContent)]) == oldContent {
		res["kind"] = "old"
		return res
	}
	v, err := parseDoc(b, false)
	kind := "json"
	if err != nil {
		v, err = parseDoc(b, true)
		kind = "yaml"
	}
	m, ok := v.(map[string]any)
	if err != nil || !ok {
		return res
	}
	if _, ok := m["openapi"]; ok {
		res["kind"] = kind
		res["doc"] = canonDoc(v)
		return res
	}
	if _, ok := m["routes"]; ok && kind == "json" {
		var o struct {
			Routes     []astra.Route
			Components []astra.Field
		}
		if err := json.Unmarshal(b, &o); err == nil && len(m) == 2 {
			res["kind"] = "debug"
			res["routes"] = canonRoutes(o.Routes)
			res["comps"] = canonFields(o.Components)
		}
	}
	return res
}

func runConfigCase(c *ConfigCase, dir string) (M, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	for _, p := range c.Pre {
		full := filepath.Join(dir, p.Path)
		if p.Kind == "dir" {
			if err := os.MkdirAll(full, 0o755); err != nil {
				return nil, err
			}
			continue
		}
		b := []byte(oldContent)
		for len(b) < 100000 {
			b = append(b, b...)
		}
		if err := os.WriteFile(full, b, 0o644); err != nil {
			return nil, err
		}
	}
	if err := os.Chdir(filepath.Dir(dir)); err != nil {
		return nil, err
	}
	opts := []astra.Option{quiet()}
	switch c.Work {
	case "custom":
		opts = append(opts, astra.WithCustomWorkDir(dir))
	case "relative":
		opts = append(opts, astra.WithCustomWorkDir(filepath.Base(dir)))
	case "cwd":
		if err := os.Chdir(dir); err != nil {
			return nil, err
		}
	}
	builds := []M{}
	b := astra.NewConfigBuilder()
	var cfg *astra.Config
	for _, call := range c.Calls {
		switch call.F {
		case "title":
			b = b.SetTitle(call.S)
		case "description":
			b = b.SetDescription(call.S)
		case "version":
			b = b.SetVersion(call.S)
		case "contact":
			b = b.SetContact(astra.Contact(call.C))
		case "license":
			b = b.SetLicense(astra.License(call.L))
		case "secure":
			b = b.SetSecure(call.B)
		case "host":
			b = b.SetHost(call.S)
		case "basePath":
			b = b.SetBasePath(call.S)
		case "port":
			b = b.SetPort(call.N)
		case "build":
			built, err := b.Build()
			builds = append(builds, M{"err": err != nil, "portErr": errors.Is(err, astra.ErrConfigPortRequired), "none": built == nil, "config": canonConfig(built)})
			if err == nil {
				cfg = built
			}
		}
	}
	if len(c.Raw) > 0 {
		cfg = c.Raw[0].config()
	}
	opts = append(opts, astra.WithConfig(cfg))
	for _, o := range c.Outs {
		if o.Kind == "openapi" {
			opts = append(opts, outputs.WithOpenAPIOutput(o.Path))
		} else {
			opts = append(opts, outputs.WithJSONOutput(o.Path))
		}
	}
	s := astra.New(opts...)
	s.Routes = uncanonRoutes(c.Svc.Routes)
	s.Components = uncanonFields(c.Svc.Comps)
	err := protect(s.Generate)
	tree, err2 := observeTree(dir)
	if err2 != nil {
		return nil, err2
	}
	return M{"builds": builds, "err": errText(err), "noConfig": errors.Is(err, astra.ErrConfigNotFound), "tree": tree}, nil
}

func runConfig(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c ConfigCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		root := filepath.Join(scratch, "root")
		obs, err := runConfigCase(&c, filepath.Join(root, "w"))
		if err != nil {
			return err
		}
		// nothing beside the working directory
		entries, err := os.ReadDir(root)
		if err != nil {
			return err
		}
		obs["beside"] = len(entries) - 1
		if err := os.Chdir(scratch); err != nil {
			return err
		}
		if err := os.RemoveAll(root); err != nil {
			return err
		}
		if err := out.Encode(M{"id": c.ID, "case": c, "obs": obs}); err != nil {
			return err
		}
	}
}
