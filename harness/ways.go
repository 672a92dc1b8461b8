package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/inputs"
)

// WOp is an operation of a history: on the service or the caches of one of the directories.
type WOp struct {
	K     string `json:"k"`
	D     int    `json:"d"`
	Q     int    `json:"q"`
	Cache string `json:"cache"`
	Mode  string `json:"mode"`
	Bare  bool   `json:"bare"`
	M     string `json:"m"`
	Form  string `json:"form"`
}

type WaysCase struct {
	ID    int        `json:"id"`
	Progs []ProgCase `json:"progs"`
	Outs  []LOut     `json:"outs"`
	Ops   []WOp      `json:"ops"`
}

// ways is where a history takes place.
type ways struct {
	c    *WaysCase
	root string
	in   map[int]int
	live map[int]*astra.Service
	kept int
}

func (w *ways) dir(d int) string { return filepath.Join(w.root, fmt.Sprintf("d%d", d), "prog") }

func (w *ways) cachePath(d int, c string) string {
	switch c {
	case "json":
		return filepath.Join(w.root, fmt.Sprintf("d%d", d), "cache.json")
	case "yaml":
		return filepath.Join(w.root, fmt.Sprintf("d%d", d), "some.cache.yaml")
	}
	return filepath.Join(w.dir(d), ".astra", "cache.json")
}

// write puts a program into a directory, in place of anything else.
func (w *ways) write(d, q int) error {
	if err := os.RemoveAll(filepath.Dir(w.dir(d))); err != nil {
		return err
	}
	p := w.c.Progs[q-1]
	if err := writeModule(w.dir(d), p.Mod, p.Files); err != nil {
		return err
	}
	w.in[d] = q
	return os.MkdirAll(filepath.Join(w.dir(d), "docs"), 0o755)
}

func (w *ways) createRoutes(q int) astra.ServiceFunction {
	return func(s *astra.Service) error {
		for _, r := range w.c.Progs[q-1].Routes {
			s.AddRoute(astra.Route{Handler: r.Handler, File: filepath.Join(s.WorkDir, r.File), LineNo: r.Line, Method: r.Method, Path: r.Path})
		}
		return nil
	}
}

// rebind gives the inputs and outputs of a cache their functions again.
func (w *ways) rebind(s *astra.Service, q int) {
	ins, outs := s.Inputs, s.Outputs
	s.Inputs, s.Outputs = nil, nil
	for range ins {
		inputs.WithGinInput(nil)(s)
		s.Inputs[len(s.Inputs)-1].CreateRoutes = w.createRoutes(q)
	}
	for _, o := range outs {
		outputOption(outputKinds[o.Mode], outputPath(o))(s)
	}
}

func (w *ways) service(d, q int, op WOp) *astra.Service {
	p := w.c.Progs[q-1]
	offers := []Offer{}
	opts := []astra.Option{quiet(), astra.WithCustomWorkDir(w.dir(d))}
	for i, cf := range p.Customs {
		opts = append(opts, astra.WithCustomFunc(customFunc(i+1, cf, &offers)))
	}
	switch op.Cache {
	case "":
	case "default":
		opts = append(opts, cache.WithCache())
	default:
		opts = append(opts, cache.WithCustomCachePath(w.cachePath(d, op.Cache)))
	}
	switch op.Mode {
	case "setup":
		opts = append(opts, cli.WithCLI())
	case "builder":
		opts = append(opts, cli.WithCLIBuilder())
	}
	if !op.Bare {
		opts = append(opts, inputs.WithGinInput(nil),
			astra.WithConfig(&astra.Config{Title: fmt.Sprintf("program %d", q), Version: fmt.Sprint(q), Host: "localhost", Port: 8080 + q}))
		for _, m := range p.Mapping {
			opts = append(opts, astra.WithCustomTypeMappingSingle(m.Key, m.Type, m.Format))
		}
		for _, o := range w.c.Outs {
			opts = append(opts, outputOption(o.Kind, o.Path))
		}
	}
	s := astra.New(opts...)
	for i := range s.Inputs {
		s.Inputs[i].CreateRoutes = w.createRoutes(q)
	}
	return s
}

// take takes the outputs of a directory away, and gives back their digests.
func (w *ways) take(d int) ([]string, error) {
	sums := []string{}
	found := false
	for _, o := range w.c.Outs {
		p := filepath.Join(w.dir(d), o.Path)
		h := sha256.New()
		n := 0
		err := filepath.WalkDir(p, func(f string, e fs.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return err
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			n++
			rel, err := filepath.Rel(p, f)
			fmt.Fprintf(h, "%s %d\n", rel, len(b))
			h.Write(b)
			return err
		})
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return nil, err
		}
		if err != nil {
			sums = append(sums, "")
			continue
		}
		found = true
		if keep := os.Getenv("VERIF_KEEP"); keep != "" {
			w.kept++
			_ = exec.Command("cp", "-r", p, filepath.Join(keep, fmt.Sprintf("%d-%d-%s", w.c.ID, w.kept, filepath.Base(p)))).Run()
		}
		if err := os.RemoveAll(p); err != nil {
			return nil, err
		}
		sums = append(sums, hex.EncodeToString(h.Sum(nil)[:8]))
	}
	if !found {
		return []string{}, nil
	}
	return sums, nil
}

// reference is what another process generates in one go.
func (w *ways) reference(d, q int) ([]string, error) {
	if err := w.write(d, q); err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	f := filepath.Join(w.root, "case.json")
	b, err := json.Marshal(w.c)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "ways-child", f, w.root, fmt.Sprintf("%d %d", d, q))
	out, err := cmd.CombinedOutput()
	if err != nil {
		return []string{"failed: " + err.Error(), string(out)}, nil
	}
	return w.take(d)
}

func waysChild(file, root, what string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fail(err)
	}
	w := &ways{c: &WaysCase{}, root: root, in: map[int]int{}, live: map[int]*astra.Service{}}
	if err := json.Unmarshal(b, w.c); err != nil {
		fail(err)
	}
	var d, q int
	if _, err := fmt.Sscan(what, &d, &q); err != nil {
		fail(err)
	}
	if err := bounded(120*time.Second, w.service(d, q, WOp{}).Parse); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(5)
	}
	os.Exit(0)
}

// tool runs the command line tool.
func (w *ways) tool(d int, form string, cachePath string) error {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		fail(errors.New("no command line tool"))
	}
	cwd, dirArg := w.dir(d), "."
	switch form {
	case "parent":
		cwd, dirArg = filepath.Dir(w.dir(d)), "prog"
	case "below":
		cwd, dirArg = filepath.Join(w.dir(d), "docs"), ".."
	case "absolute":
		cwd, dirArg = w.root, w.dir(d)
	}
	cacheArg := cachePath
	if form != "absolute" {
		rel, err := filepath.Rel(cwd, cachePath)
		if err != nil {
			return err
		}
		cacheArg = rel
	}
	args := []string{"generate"}
	if cacheArg != ".astra/cache.json" {
		args = append(args, "-c", cacheArg)
	}
	if dirArg != "." {
		args = append(args, "--dir", dirArg)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = cwd
	done := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
	defer done.Stop()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%w: %s", err, out)
	}
	return nil
}

// spoil makes a cache from another one, in which something is wrong.
func (w *ways) spoil(d int, from, kind string) (string, error) {
	if kind == "missing" {
		return filepath.Join(w.root, "missing.json"), nil
	}
	s := astra.New(quiet())
	if err := s.LoadCacheFromCustomPath(w.cachePath(d, from)); err != nil {
		return "", err
	}
	ext := filepath.Ext(w.cachePath(d, from))
	switch kind {
	case "input":
		s.Inputs[0].Mode = "chi"
	case "output":
		s.Outputs[len(s.Outputs)-1].Mode = "html"
	case "input2":
		s.Inputs = append(s.Inputs, astra.Input{Mode: "chi"})
	case "lastpath", "azurepath":
		o := s.Outputs[len(s.Outputs)-1]
		for _, x := range s.Outputs {
			if kind == "azurepath" && x.Mode == "azureFunctions" {
				o = x
			}
		}
		for k := range o.Configuration {
			o.Configuration[k] = ""
		}
	case "path":
		for k := range s.Outputs[0].Configuration {
			s.Outputs[0].Configuration[k] = ""
		}
	case "nopath":
		s.Outputs[len(s.Outputs)-1].Configuration = nil
	case "directory":
		for i, o := range s.Outputs {
			if o.Mode != "azureFunctions" {
				s.Outputs[i].Mode = "azureFunctions"
				break
			}
		}
	case "noinputs":
		s.Inputs = nil
	case "nooutputs":
		s.Outputs = nil
	}
	p := filepath.Join(w.root, "bad"+ext)
	s.CachePath = p
	if err := s.Cache(); err != nil {
		return "", err
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return "", err
	}
	switch kind {
	case "cut":
		if ext != ".json" {
			b = []byte("inputs: [\n")
		} else {
			b = b[:len(b)/2]
		}
		return p, os.WriteFile(p, b, 0o644)
	case "extension":
		q := filepath.Join(w.root, "bad.toml")
		return q, os.WriteFile(q, b, 0o644)
	}
	return p, nil
}

func (w *ways) do(op WOp) error {
	s := w.live[op.D]
	switch op.K {
	case "new":
		if w.in[op.D] != op.Q {
			if err := w.write(op.D, op.Q); err != nil {
				fail(err)
			}
		}
		w.live[op.D] = w.service(op.D, op.Q, op)
	case "call":
		f := map[string]func() error{"Setup": s.Setup, "CreateRoutes": s.CreateRoutes, "ParseRoutes": s.ParseRoutes, "Clean": s.Clean, "Generate": s.Generate, "Teardown": s.Teardown,
			"SetupParse": s.SetupParse, "CompleteParse": s.CompleteParse, "Parse": s.Parse}[op.M]
		return bounded(120*time.Second, f)
	case "load":
		if err := protect(func() error { return s.LoadCacheFromCustomPath(w.cachePath(op.D, op.Cache)) }); err != nil {
			return err
		}
		w.rebind(s, w.in[op.D])
	case "cli":
		w.live[op.D] = nil
		return w.tool(op.D, op.Form, w.cachePath(op.D, op.Cache))
	case "bad":
		w.live[op.D] = nil
		p, err := w.spoil(op.D, op.Cache, op.Form)
		if err != nil {
			return errors.New("broken: " + err.Error())
		}
		return w.tool(op.D, "here", p)
	}
	return nil
}

func runWaysCase(c *WaysCase, root string) (M, error) {
	w := &ways{c: c, root: root, in: map[int]int{}, live: map[int]*astra.Service{}}
	if err := os.MkdirAll(root, 0o755); err != nil {
		return nil, err
	}
	refs := [][][]string{{{}, {}}, {{}, {}}}
	for _, op := range c.Ops {
		if op.K == "new" && len(refs[op.D-1][op.Q-1]) == 0 {
			sums, err := w.reference(op.D, op.Q)
			if err != nil {
				return nil, err
			}
			refs[op.D-1][op.Q-1] = sums
		}
	}
	w.in = map[int]int{}
	ops := []M{}
	for _, op := range c.Ops {
		err := w.do(op)
		if err != nil && strings.HasPrefix(err.Error(), "broken: ") {
			return nil, err
		}
		sums := []any{}
		for d := 1; d <= 2; d++ {
			if w.in[d] == 0 {
				sums = append(sums, []string{})
				continue
			}
			x, err := w.take(d)
			if err != nil {
				return nil, err
			}
			sums = append(sums, x)
		}
		ops = append(ops, M{"err": errText(err), "sums": sums})
	}
	return M{"refs": refs, "ops": ops}, nil
}

func runWays(in *json.Decoder, out *json.Encoder, scratch string) error {
	for n := 0; ; n++ {
		var c WaysCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		// what was in a directory before counts for the rest of a process, so that each case has one of its own
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", n))
		obs, err := runWaysCase(&c, dir)
		if err != nil {
			return err
		}
		if err := os.RemoveAll(dir); err != nil {
			return err
		}
		if err := out.Encode(M{"id": c.ID, "ops": c.Ops, "obs": obs}); err != nil {
			return err
		}
		if err := flush(); err != nil {
			return err
		}
	}
}
