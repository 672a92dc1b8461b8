package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"os/signal"
	"path"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/outputs"
)

type LOut struct {
	Kind string `json:"kind"`
	Path string `json:"path"`
}

// LCfg is the configuration of a service whose inputs are scripted.
type LCfg struct {
	Cache string `json:"cache"`
	CLI   string `json:"cli"`
	Cwd   bool   `json:"cwd"`
	Ins   []int  `json:"ins"`
	Outs  []LOut `json:"outs"`
	Title string `json:"title"`
	V     int    `json:"v"`
}

// LOp is an operation on a service, or in its directory.
type LOp struct {
	K    string `json:"k"`
	Cfg  LCfg   `json:"cfg"`
	M    string `json:"m"`
	Fail string `json:"fail"`
	How  string `json:"how"`
	At   int    `json:"at"`
	Path string `json:"path"`
	Kind string `json:"kind"`
}

type LifeCase struct {
	ID  int     `json:"id"`
	Pre []PFile `json:"pre"`
	Ops []LOp   `json:"ops"`
}

var errScripted = errors.New("scripted")

// life is a service with scripted inputs, that records the calls of its inputs and outputs.
type life struct {
	cfg    LCfg
	s      *astra.Service
	fail   string
	record func(ev string)
}

func (l *life) event(ev string) error {
	l.record(ev)
	if ev == l.fail {
		return errScripted
	}
	return nil
}

func lifeRouteID(k, v int) string { return fmt.Sprintf("%d_%d", k, v) }

var lifeID = regexp.MustCompile(`\d+_\d+`)

func (l *life) input(k int) astra.Input {
	return astra.Input{
		Mode: astra.InputMode(fmt.Sprintf("in%d", k)),
		CreateRoutes: func(s *astra.Service) error {
			if err := l.event(fmt.Sprintf("create%d", k)); err != nil {
				return err
			}
			id := lifeRouteID(k, l.cfg.V)
			s.AddRoute(astra.Route{Handler: "main.H" + id, File: "main.go", LineNo: 1, Method: "GET", Path: "/r" + id})
			return nil
		},
		ParseRoutes: func(s *astra.Service) error {
			if err := l.event(fmt.Sprintf("parse%d", k)); err != nil {
				return err
			}
			pkg, err := s.GetMainPackageName()
			if err != nil {
				return err
			}
			for _, r := range append([]astra.Route{}, s.Routes...) {
				id := lifeID.FindString(r.Path)
				if !strings.HasPrefix(id, strconv.Itoa(k)+"_") {
					continue
				}
				r.ReturnTypes = []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Type: "C" + id, Package: pkg}}}
				s.ReplaceRoute(r)
				s.Components = astra.AddComponent(s.Components, astra.Field{Name: "C" + id, Package: pkg, Type: "string"})
			}
			return nil
		},
	}
}

// wrap makes an output report that it is called.
func (l *life) wrap(o astra.Output, p string) astra.Output {
	generate := o.Generate
	o.Generate = func(s *astra.Service) error {
		if err := l.event("gen:" + p); err != nil {
			return err
		}
		return generate(s)
	}
	return o
}

func outputOption(kind, p string) astra.Option {
	switch kind {
	case "json":
		return outputs.WithJSONOutput(p)
	case "azure":
		return outputs.WithAzureFunctionsOutput(p)
	}
	return outputs.WithOpenAPIOutput(p)
}

var outputKinds = map[astra.OutputMode]string{outputs.OutputModeJSON: "json", outputs.OutputModeAzureFunctions: "azure", outputs.OutputModeOpenAPI: "openapi"}

func (l *life) bindOutput(kind, p string) astra.Output {
	tmp := astra.New(quiet(), outputOption(kind, p))
	return l.wrap(tmp.Outputs[0], p)
}

func outputPath(o astra.Output) string {
	for _, k := range []astra.IOConfigurationKey{astra.IOConfigurationKeyFilePath, astra.IOConfigurationKeyDirectoryPath} {
		if p, ok := o.Configuration[k].(string); ok {
			return p
		}
	}
	return "?"
}

// rebind gives the inputs and outputs of a cache their functions again.
func (l *life) rebind() {
	for i, in := range l.s.Inputs {
		k, _ := strconv.Atoi(strings.TrimPrefix(string(in.Mode), "in"))
		l.s.Inputs[i] = l.input(k)
	}
	for i, o := range l.s.Outputs {
		l.s.Outputs[i] = l.bindOutput(outputKinds[o.Mode], outputPath(o))
	}
}

func newLife(cfg LCfg, dir string, record func(string)) *life {
	l := &life{cfg: cfg, record: record}
	opts := []astra.Option{quiet(), astra.WithConfig(&astra.Config{Title: cfg.Title, Version: "1", Host: "localhost", Port: 8080})}
	if !cfg.Cwd {
		opts = append(opts, astra.WithCustomWorkDir(dir))
	}
	switch cfg.Cache {
	case "":
	case "default":
		opts = append(opts, cache.WithCache())
	default:
		opts = append(opts, cache.WithCustomCachePath(filepath.Join(dir, cfg.Cache)))
	}
	switch cfg.CLI {
	case "setup":
		opts = append(opts, cli.WithCLI())
	case "builder":
		opts = append(opts, cli.WithCLIBuilder())
	}
	l.s = astra.New(opts...)
	for _, k := range cfg.Ins {
		l.s.Inputs = append(l.s.Inputs, l.input(k))
	}
	for _, o := range cfg.Outs {
		l.s.Outputs = append(l.s.Outputs, l.bindOutput(o.Kind, o.Path))
	}
	return l
}

func (l *life) call(m string) error {
	s := l.s
	f := map[string]func() error{"Setup": s.Setup, "CreateRoutes": s.CreateRoutes, "ParseRoutes": s.ParseRoutes, "Clean": s.Clean, "Generate": s.Generate, "Teardown": s.Teardown,
		"SetupParse": s.SetupParse, "CompleteParse": s.CompleteParse, "Parse": s.Parse, "Cache": s.Cache, "LoadCache": s.LoadCache, "ClearCache": s.ClearCache}[m]
	err := protect(f)
	if m == "LoadCache" && err == nil {
		l.rebind()
	}
	return err
}

func lifePkg(p string) string {
	switch {
	case p == "" || p == "main":
		return p
	case strings.Contains(p, ".astra"):
		return "temp"
	}
	return "other"
}

func observeSv(s *astra.Service) M {
	if s == nil {
		return M{"ins": []int{}, "outs": []M{}, "routes": []M{}, "comps": []M{}, "title": ""}
	}
	ins, outs, routes, comps := []int{}, []M{}, []M{}, []M{}
	for _, in := range s.Inputs {
		k, _ := strconv.Atoi(strings.TrimPrefix(string(in.Mode), "in"))
		ins = append(ins, k)
	}
	for _, o := range s.Outputs {
		outs = append(outs, M{"kind": outputKinds[o.Mode], "path": outputPath(o)})
	}
	for _, r := range s.Routes {
		pkg := ""
		id := lifeID.FindString(r.Path)
		if r.Path != "/r"+id || r.Handler != "main.H"+id || r.Method != "GET" || r.File != "main.go" || r.LineNo != 1 || len(r.ReturnTypes) > 1 {
			id = "?"
		}
		for _, t := range r.ReturnTypes {
			pkg = lifePkg(t.Field.Package)
			if t.Field.Type != "C"+id || t.StatusCode != 200 || t.ContentType != "application/json" {
				pkg = "?"
			}
		}
		routes = append(routes, M{"id": id, "pkg": pkg})
	}
	for _, c := range s.Components {
		comps = append(comps, M{"id": strings.TrimPrefix(c.Name, "C"), "pkg": lifePkg(c.Package)})
	}
	title := ""
	if s.Config != nil {
		title = s.Config.Title
	}
	return M{"ins": ins, "outs": outs, "routes": routes, "comps": comps, "title": title}
}

func lifeNode(k string) M {
	return M{"k": k, "form": "", "r": []string{}, "c": []string{}, "sv": observeSv(nil)}
}

func ids(text []string) []string {
	seen := map[string]bool{}
	for _, t := range text {
		seen[lifeID.FindString(t)] = true
	}
	out := []string{}
	for id := range seen {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func names(v any) []string {
	out := []string{}
	for k := range asM(v) {
		out = append(out, k)
	}
	return out
}

// lifeOutput reads an output, if the file is one.
func lifeOutput(b []byte, yaml bool) (M, bool) {
	v, err := parseDoc(b, yaml)
	if err != nil {
		return nil, false
	}
	m, ok := v.(map[string]any)
	if !ok {
		return nil, false
	}
	n := lifeNode("out")
	if _, ok := m["openapi"]; ok {
		n["form"], n["r"], n["c"] = "openapi", ids(names(m["paths"])), ids(names(asM(m["components"])["schemas"]))
		return n, true
	}
	if _, ok := m["routes"]; ok && m["inputs"] == nil {
		rs, cs := []string{}, []string{}
		for _, r := range asL(m["routes"]) {
			rs = append(rs, asS(asM(r)["path"]))
		}
		for _, c := range asL(m["components"]) {
			cs = append(cs, asS(asM(c)["name"]))
		}
		n["form"], n["r"], n["c"] = "json", ids(rs), ids(cs)
		return n, true
	}
	return nil, false
}

// lifeFunctions reads a directory of functions, if it is one.
func lifeFunctions(dir string) (M, bool) {
	fs, err := os.ReadDir(dir)
	if err != nil {
		return nil, false
	}
	n, rs := lifeNode("out"), []string{}
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(dir, f.Name(), "function.json"))
		if err != nil || !strings.HasPrefix(f.Name(), "H") || !strings.Contains(string(b), `"r`+lifeID.FindString(f.Name())) && !strings.Contains(string(b), `"/r`+lifeID.FindString(f.Name())) {
			return nil, false
		}
		rs = append(rs, f.Name())
	}
	n["form"], n["r"] = "azure", ids(rs)
	return n, true
}

// lifeCache reads a cache, if the file is one.
func lifeCache(p string) (M, bool) {
	s := astra.New(quiet())
	load := p
	if path.Ext(p) != ".json" && path.Ext(p) != ".yaml" && path.Ext(p) != ".yml" {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, false
		}
		tmp, err := os.CreateTemp("", "life*.json")
		if err != nil {
			return nil, false
		}
		defer os.Remove(tmp.Name())
		_, _ = tmp.Write(b)
		_ = tmp.Close()
		load = tmp.Name()
	}
	if err := protect(func() error { return s.LoadCacheFromCustomPath(load) }); err != nil || s.Config == nil {
		return nil, false
	}
	n := lifeNode("cache")
	n["sv"] = observeSv(s)
	return n, true
}

func observeLife(dir string, caches, azure map[string]bool) (M, error) {
	tree := M{}
	obs := M{"astra": "none", "ign": "none", "main": "no", "extra": "no"}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return err
		}
		if rel == ".astra" {
			obs["astra"] = map[bool]string{true: "dir", false: "file"}[d.IsDir()]
			return nil
		}
		if caches[rel] && !d.IsDir() {
			if n, ok := lifeCache(p); ok {
				tree[rel] = n
				return nil
			}
		}
		if strings.HasPrefix(rel, ".astra/") && rel != ".astra/cache.json" {
			switch {
			case rel == ".astra/.gitignore":
				b, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				obs["ign"] = "other"
				if strings.TrimSpace(string(b)) == "*" {
					obs["ign"] = "ok"
				}
			case strings.HasSuffix(rel, ".go"):
				obs["main"] = "yes"
			case d.IsDir():
			default:
				obs["extra"] = "yes"
			}
			return nil
		}
		if d.IsDir() {
			if n, ok := lifeFunctions(p); ok && azure[rel] {
				tree[rel] = n
				return filepath.SkipDir
			}
			tree[rel] = lifeNode("dir")
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		n := lifeNode("other")
		if string(b) == oldContent {
			n = lifeNode("old")
		} else if string(b) == junkContent {
			n = lifeNode("junk")
		} else if o, ok := lifeOutput(b, strings.HasSuffix(rel, ".yaml") || strings.HasSuffix(rel, ".yml")); ok {
			n = o
		} else if c, ok := lifeCache(p); ok {
			n = c
		}
		tree[rel] = n
		return nil
	})
	obs["tree"] = tree
	return obs, err
}

const junkContent = "{\"inputs\": [{\"mode\": \"in"

func place(dir, p, kind string) error {
	full := filepath.Join(dir, p)
	if err := os.RemoveAll(full); err != nil {
		return err
	}
	switch kind {
	case "gone":
		return nil
	case "dir":
		return os.Mkdir(full, 0o755)
	case "junk":
		return os.WriteFile(full, []byte(junkContent), 0o644)
	}
	return os.WriteFile(full, []byte(oldContent), 0o644)
}

// die runs a call in a process of its own, that ends in between.
func die(op LOp, dir string) (events []string, end string, err error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, "", err
	}
	b, err := json.Marshal(op)
	if err != nil {
		return nil, "", err
	}
	args := []string{exe, "life-child", string(b), dir, "-"}
	if how, calls, ok := strings.Cut(op.How, ":"); ok && straceWorks() {
		what := map[string]string{"sys": "signal=SIGKILL", "err": "error=ENOSPC"}[how]
		args = append([]string{"strace", "-f", "-o", "/dev/null", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:%s:when=%d", calls, what, op.At)}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=none")
	done := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	out, rerr := cmd.Output()
	done.Stop()
	events = []string{}
	for _, e := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		if e != "" {
			events = append(events, e)
		}
	}
	code := 0
	if rerr != nil {
		var ee *exec.ExitError
		if !errors.As(rerr, &ee) {
			return nil, "", rerr
		}
		code = ee.ExitCode()
	}
	switch code {
	case 0:
		return events, "ok", nil
	case 5:
		return events, "err", nil
	}
	return events, "dead", nil
}

var strace = 0

func straceWorks() bool {
	if strace == 0 {
		strace = 1
		if exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=none", "true").Run() == nil {
			strace = 2
		}
	}
	return strace == 2
}

func lifeChild(arg, dir string) {
	runtime.LockOSThread()
	var op LOp
	if err := json.Unmarshal([]byte(arg), &op); err != nil {
		os.Exit(9)
	}
	n := 0
	l := newLife(op.Cfg, dir, func(ev string) {
		for i := 0; i < 3; i++ {
			if _, err := os.Stdout.WriteString(ev + "\n"); err == nil {
				break
			}
		}
		n++
		if op.How == "event" && n == op.At {
			os.Exit(7)
		}
	})
	if op.How == "full" || op.How == "limit" {
		if op.How == "full" {
			signal.Ignore(syscall.SIGXFSZ)
		}
		lim := syscall.Rlimit{Cur: uint64(op.At), Max: uint64(op.At)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			os.Exit(9)
		}
	}
	if err := l.call(op.M); err != nil {
		os.Exit(5)
	}
	os.Exit(0)
}

func runLifeCase(c *LifeCase, dir string) (M, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	for _, p := range c.Pre {
		if err := place(dir, p.Path, p.Kind); err != nil {
			return nil, err
		}
	}
	here, err := os.Getwd()
	if err != nil {
		return nil, err
	}
	if err := os.Chdir(dir); err != nil {
		return nil, err
	}
	defer os.Chdir(here)
	var l *life
	caches, azure := map[string]bool{".astra/cache.json": true}, map[string]bool{}
	ops := []M{}
	for _, op := range c.Ops {
		events, end := []string{}, ""
		var oerr error
		if op.K == "new" || op.K == "die" {
			if op.Cfg.Cache != "" && op.Cfg.Cache != "default" {
				caches[op.Cfg.Cache] = true
			}
			for _, o := range op.Cfg.Outs {
				if o.Kind == "azure" {
					azure[filepath.Clean(o.Path)] = true
				}
			}
		}
		switch op.K {
		case "new":
			l = newLife(op.Cfg, dir, nil)
		case "call":
			l.fail = op.Fail
			l.record = func(ev string) { events = append(events, ev) }
			oerr = l.call(op.M)
		case "put":
			if err := place(dir, op.Path, op.Kind); err != nil {
				return nil, err
			}
		case "die":
			l = nil
			if events, end, err = die(op, dir); err != nil {
				return nil, err
			}
			if end == "err" {
				oerr = errScripted
			}
		}
		tree, err := observeLife(dir, caches, azure)
		if err != nil {
			return nil, err
		}
		var s *astra.Service
		if l != nil {
			s = l.s
		}
		ops = append(ops, M{"err": errText(oerr), "ev": events, "end": end, "sv": observeSv(s), "fs": tree})
	}
	return M{"ops": ops}, nil
}

func runLife(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c LifeCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		dir := filepath.Join(scratch, "w")
		obs, err := runLifeCase(&c, dir)
		if err != nil {
			return err
		}
		if err := os.RemoveAll(dir); err != nil {
			return err
		}
		if err := out.Encode(M{"id": c.ID, "case": c, "obs": obs}); err != nil {
			return err
		}
		if err := flush(); err != nil {
			return err
		}
	}
}
