package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/outputs"
)

// KSvc is everything of a service that a cache holds.
type KSvc struct {
	Svc  CSvc     `json:"svc"`
	Ins  []string `json:"ins"`
	Outs []LOut   `json:"outs"`
}

// KOp is an operation on one of the services, or on a file.
type KOp struct {
	K    string `json:"k"`
	I    int    `json:"i"`
	N    int    `json:"n"`
	Path string `json:"path"`
	Kind string `json:"kind"`
}

type CacheCase struct {
	ID   int    `json:"id"`
	Svcs []KSvc `json:"svcs"`
	Ops  []KOp  `json:"ops"`
}

func (k KSvc) fill(opts ...astra.Option) *astra.Service {
	for _, o := range k.Outs {
		opts = append(opts, outputOption(o.Kind, o.Path))
	}
	s := k.Svc.service(opts...)
	for _, in := range k.Ins {
		s.Inputs = append(s.Inputs, astra.Input{Mode: astra.InputMode(in)})
	}
	return s
}

func observeService(s *astra.Service) M {
	mapping := []CMapping{}
	for k, t := range s.CustomTypeMapping {
		mapping = append(mapping, CMapping{k, t.Type, t.Format})
	}
	sort.Slice(mapping, func(i, j int) bool { return mapping[i].Key < mapping[j].Key })
	ins, outs := []string{}, []M{}
	for _, in := range s.Inputs {
		ins = append(ins, string(in.Mode))
	}
	for _, o := range s.Outputs {
		conf := []string{}
		for k, v := range o.Configuration {
			conf = append(conf, fmt.Sprintf("%s=%v", k, v))
		}
		sort.Strings(conf)
		outs = append(outs, M{"mode": string(o.Mode), "conf": conf})
	}
	return M{"routes": canonRoutes(s.Routes), "comps": canonFields(s.Components), "mapping": mapping, "config": canonConfig(s.Config), "has": s.Config != nil, "ins": ins, "outs": outs}
}

// digest generates the documents of a service, and gives back their digests.
func digest(s *astra.Service, dir string) ([]string, error) {
	outs, enabled, work := s.Outputs, s.CacheEnabled, s.WorkDir
	var config astra.Config
	if s.Config != nil {
		config = *s.Config
	}
	defer func() {
		s.Outputs, s.CacheEnabled, s.WorkDir = outs, enabled, work
		if s.Config != nil {
			*s.Config = config
		}
	}()
	files := []string{"g.json", "g.yaml", "gd.json"}
	s.Outputs, s.CacheEnabled, s.WorkDir = nil, false, dir
	outputs.WithOpenAPIOutput(files[0])(s)
	outputs.WithOpenAPIOutput(files[1])(s)
	outputs.WithJSONOutput(files[2])(s)
	if err := protect(s.Generate); err != nil {
		return []string{}, err
	}
	sums := []string{}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return []string{}, err
		}
		h := sha256.Sum256(b)
		sums = append(sums, hex.EncodeToString(h[:8]))
	}
	return sums, nil
}

var junkCaches = map[string]string{
	"text":  "neither of them: {[",
	"json1": `{"inputs":[],"outputs":[],"config":{"title":"cut`,
	"json2": `{"inputs":[{"mode":"gin"}],"outputs":[],"routes":5}`,
	"json3": `["inputs"]`,
	"yaml1": "inputs: []\noutputs: {a: [\n",
	"yaml2": "inputs:\n  - mode: gin\nroutes: 5\n",
	"empty": "",
}

func runCacheCase(c *CacheCase, dir string) (M, error) {
	gen := filepath.Join(dir, "gen")
	for _, d := range []string{"w/.astra", "gen", "sub"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			return nil, err
		}
	}
	svcs := map[int]*astra.Service{}
	paths := map[int]string{}
	orig, osums := []M{}, [][]string{}
	for _, k := range c.Svcs {
		orig = append(orig, observeService(k.fill()))
		sums, err := digest(k.fill(quiet(), astra.WithCustomWorkDir(filepath.Join(dir, "w"))), gen)
		if err != nil {
			sums = []string{}
		}
		osums = append(osums, sums)
	}
	options := func(i int) []astra.Option {
		o := []astra.Option{quiet(), astra.WithCustomWorkDir(filepath.Join(dir, "w"))}
		if paths[i] != "" {
			o = append(o, cache.WithCustomCachePath(filepath.Join(dir, paths[i])))
		}
		return o
	}
	obs := []M{}
	for _, op := range c.Ops {
		var err error
		sums := []string{}
		s := svcs[op.I]
		switch op.K {
		case "new":
			paths[op.I] = op.Path
			svcs[op.I] = astra.New(options(op.I)...)
		case "fill":
			svcs[op.I] = c.Svcs[op.N-1].fill(options(op.I)...)
		case "save":
			err = protect(s.Cache)
		case "load":
			err = protect(s.LoadCache)
		case "loadp":
			err = protect(func() error { return s.LoadCacheFromCustomPath(filepath.Join(dir, op.Path)) })
		case "clear":
			err = protect(s.ClearCache)
		case "gen":
			sums, err = digest(s, gen)
		case "copy":
			b, rerr := os.ReadFile(filepath.Join(dir, op.Path))
			if rerr == nil {
				rerr = os.WriteFile(filepath.Join(dir, op.Kind), b, 0o644)
			}
			if rerr != nil {
				return nil, rerr
			}
		case "put":
			p := filepath.Join(dir, op.Path)
			if err := os.RemoveAll(p); err != nil {
				return nil, err
			}
			if op.Kind == "dir" {
				if err := os.Mkdir(p, 0o755); err != nil {
					return nil, err
				}
			} else if op.Kind != "gone" {
				if err := os.WriteFile(p, []byte(junkCaches[op.Kind]), 0o644); err != nil {
					return nil, err
				}
			}
		}
		o := M{"err": errText(err), "sums": sums, "svc": observeService(astra.New(quiet()))}
		if svcs[op.I] != nil {
			o["svc"] = observeService(svcs[op.I])
		}
		obs = append(obs, o)
	}
	return M{"orig": orig, "sums": osums, "ops": obs}, nil
}

func runCache(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c CacheCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		dir := filepath.Join(scratch, "k")
		obs, err := runCacheCase(&c, dir)
		if err != nil {
			return err
		}
		if err := os.RemoveAll(dir); err != nil {
			return err
		}
		if err := out.Encode(M{"id": c.ID, "ops": c.Ops, "obs": obs}); err != nil {
			return err
		}
	}
}
