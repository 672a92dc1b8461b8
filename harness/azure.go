package main

import (
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
)

// AStep is a run of a service with routes, whose bindings go to a directory.
type AStep struct {
	Dir    string   `json:"dir"`
	Routes []CRoute `json:"routes"`
	Down   bool     `json:"down"` // the run is completed with a tear-down
}

type AzureCase struct {
	ID    int     `json:"id"`
	Pre   []PFile `json:"pre"`
	Steps []AStep `json:"steps"`
}

func canonBindings(b []byte) M {
	res := M{"kind": "other", "bindings": []M{}, "extra": []string{}}
	if string(b) == oldContent {
		res["kind"] = "old"
		return res
	}
	v, err := parseDoc(b, false)
	if err != nil {
		return res
	}
	m, ok := v.(map[string]any)
	if !ok {
		return res
	}
	r := &reader{unknown: []string{}, refs: []string{}}
	r.take(m, "file", "bindings")
	bs := []M{}
	for _, x := range asL(m["bindings"]) {
		bm := asM(x)
		r.take(bm, "binding", "type", "direction", "name", "methods", "route")
		methods := []string{}
		for _, me := range asL(bm["methods"]) {
			methods = append(methods, asS(me))
		}
		bs = append(bs, M{"type": asS(bm["type"]), "direction": asS(bm["direction"]), "name": asS(bm["name"]), "methods": methods, "route": asS(bm["route"])})
	}
	return M{"kind": "function", "bindings": bs, "extra": r.unknown}
}

func observeAzureTree(dir string) (M, error) {
	out := M{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return err
		}
		if d.IsDir() {
			if rel == filepath.Join("w", ".astra") {
				return filepath.SkipDir
			}
			out[rel] = M{"kind": "dir", "bindings": []M{}, "extra": []string{}}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[rel] = canonBindings(b)
		return nil
	})
	return out, err
}

func runAzureCase(c *AzureCase, dir string) (M, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	for _, p := range c.Pre {
		full := filepath.Join(dir, p.Path)
		if p.Kind == "dir" {
			if err := os.MkdirAll(full, 0o755); err != nil {
				return nil, err
			}
		} else if err := os.WriteFile(full, []byte(oldContent), 0o644); err != nil {
			return nil, err
		}
	}
	steps := []M{}
	for _, st := range c.Steps {
		s := astra.New(quiet(), astra.WithConfig(mainConfig), astra.WithCustomWorkDir(dir), outputs.WithAzureFunctionsOutput(st.Dir))
		s.Routes = uncanonRoutes(st.Routes)
		err := protect(s.Setup)
		if err != nil {
			return nil, err
		}
		err = protect(s.Generate)
		if st.Down {
			if err := protect(s.Teardown); err != nil {
				return nil, err
			}
		}
		tree, err2 := observeAzureTree(filepath.Dir(dir))
		if err2 != nil {
			return nil, err2
		}
		steps = append(steps, M{"err": errText(err), "tree": tree})
	}
	return M{"steps": steps}, nil
}

func runAzure(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c AzureCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		root := filepath.Join(scratch, "root")
		obs, err := runAzureCase(&c, filepath.Join(root, "w"))
		if err != nil {
			return err
		}
		if err := os.RemoveAll(root); err != nil {
			return err
		}
		if err := out.Encode(M{"id": c.ID, "case": c, "obs": obs}); err != nil {
			return err
		}
	}
}
