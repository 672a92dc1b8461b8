package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"gopkg.in/yaml.v3"
)

// CMapping is a custom type mapping.
type CMapping struct {
	Key    string `json:"key"`
	Type   string `json:"type"`
	Format string `json:"format"`
}

type CContact struct {
	Name  string `json:"name"`
	URL   string `json:"url"`
	Email string `json:"email"`
}

type CLicense struct {
	Name string `json:"name"`
	URL  string `json:"url"`
}

type CConfig struct {
	Title       string   `json:"title"`
	Description string   `json:"description"`
	Version     string   `json:"version"`
	Contact     CContact `json:"contact"`
	License     CLicense `json:"license"`
	Secure      bool     `json:"secure"`
	Host        string   `json:"host"`
	Port        int      `json:"port"`
	BasePath    string   `json:"basePath"`
}

func (c CConfig) config() *astra.Config {
	return &astra.Config{Title: c.Title, Description: c.Description, Version: c.Version, Contact: astra.Contact(c.Contact), License: astra.License(c.License),
		Secure: c.Secure, Host: c.Host, Port: c.Port, BasePath: c.BasePath}
}

func canonConfig(c *astra.Config) CConfig {
	if c == nil {
		return CConfig{}
	}
	return CConfig{c.Title, c.Description, c.Version, CContact(c.Contact), CLicense(c.License), c.Secure, c.Host, c.Port, c.BasePath}
}

// CSvc is a service as the specification knows it.
type CSvc struct {
	Routes  []CRoute   `json:"routes"`
	Comps   []CField   `json:"comps"`
	Mapping []CMapping `json:"mapping"`
	Config  CConfig    `json:"config"`
}

func (c CSvc) service(opts ...astra.Option) *astra.Service {
	for _, m := range c.Mapping {
		opts = append(opts, astra.WithCustomTypeMappingSingle(m.Key, m.Type, m.Format))
	}
	s := astra.New(append([]astra.Option{quiet(), astra.WithConfig(c.Config.config())}, opts...)...)
	s.Routes = uncanonRoutes(c.Routes)
	s.Components = uncanonFields(c.Comps)
	return s
}

type DocCase struct {
	ID   int  `json:"id"`
	Svc  CSvc `json:"svc"`
	Runs int  `json:"runs"`
}

type DocObs struct {
	Err string `json:"err"`
	Doc M      `json:"doc"`
}

// protect turns a panic into an error.
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
			if os.Getenv("VERIF_DEBUG") != "" {
				os.Stderr.Write(debug.Stack())
			}
		}
	}()
	return f()
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// parseDoc reads a document strictly.
func parseDoc(b []byte, isYAML bool) (any, error) {
	var v any
	if isYAML {
		if err := yaml.Unmarshal(b, &v); err != nil {
			return nil, err
		}
		return normYAML(v)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if err := d.Decode(new(any)); !errors.Is(err, io.EOF) {
		return nil, errors.New("more than one JSON value")
	}
	return v, nil
}

func normYAML(v any) (any, error) {
	switch x := v.(type) {
	case map[string]any:
		for k := range x {
			n, err := normYAML(x[k])
			if err != nil {
				return nil, err
			}
			x[k] = n
		}
		return x, nil
	case map[any]any:
		out := map[string]any{}
		for k := range x {
			n, err := normYAML(x[k])
			if err != nil {
				return nil, err
			}
			out[fmt.Sprint(k)] = n
		}
		return out, nil
	case []any:
		for i := range x {
			n, err := normYAML(x[i])
			if err != nil {
				return nil, err
			}
			x[i] = n
		}
		return x, nil
	}
	return v, nil
}

func generateDoc(c CSvc, scratch, file string) ([]byte, error) {
	s := c.service(astra.WithCustomWorkDir(scratch), outputs.WithOpenAPIOutput(file))
	if err := protect(s.Generate); err != nil {
		return nil, err
	}
	return os.ReadFile(filepath.Join(scratch, file))
}

func observeDoc(b []byte, err error, isYAML bool) DocObs {
	if err != nil {
		return DocObs{Err: err.Error(), Doc: M{}}
	}
	v, err := parseDoc(b, isYAML)
	if err != nil {
		return DocObs{Err: "parse: " + err.Error(), Doc: M{}}
	}
	return DocObs{Doc: canonDoc(v)}
}

func runDoc(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c DocCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		res := M{"id": c.ID, "svc": c.Svc}
		docs := map[string]DocObs{}
		same := true
		for _, file := range []string{"openapi.json", "openapi.yaml"} {
			isYAML := file == "openapi.yaml"
			first, err := generateDoc(c.Svc, scratch, file)
			docs[map[bool]string{false: "json", true: "yaml"}[isYAML]] = observeDoc(first, err, isYAML)
			for i := 1; i < c.Runs; i++ {
				next, err := generateDoc(c.Svc, scratch, file)
				if err == nil && !bytes.Equal(first, next) {
					same = false
				}
			}
		}
		res["docs"] = docs
		res["same"] = same
		if err := out.Encode(res); err != nil {
			return err
		}
	}
}
