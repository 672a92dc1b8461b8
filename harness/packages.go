package main

import (
	"encoding/json"
	"errors"
	"go/ast"
	"go/token"
	"io"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/ls6-events/astra/astTraversal"
)

// PkgOp is an operation on the tree of packages, with the paths that it is called with.
type PkgOp struct {
	K string   `json:"k"`
	P []string `json:"p"`
}

// PkgCase is what some goroutines do with one tree, and how often it is to be repeated.
type PkgCase struct {
	ID     int       `json:"id"`
	Work   [][]PkgOp `json:"work"`
	Rounds int       `json:"rounds"`
}

type pkgEvent struct {
	at    int64
	T     string `json:"t"`
	G     int    `json:"g"`
	I     int    `json:"i"`
	Nodes []M    `json:"nodes"`
	found []*astTraversal.PackageNode
}

func pkgDo(pm *astTraversal.PackageManager, op PkgOp) []*astTraversal.PackageNode {
	switch op.K {
	case "find":
		return []*astTraversal.PackageNode{pm.Find(op.P[0])}
	case "add":
		return []*astTraversal.PackageNode{pm.AddPackage(op.P[0])}
	case "findoradd":
		return []*astTraversal.PackageNode{pm.FindOrAdd(op.P[0])}
	}
	var specs []*ast.ImportSpec
	for _, p := range op.P {
		specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	var nodes []*astTraversal.PackageNode
	for _, imp := range pm.MapImportSpecs(specs) {
		nodes = append(nodes, imp.Package)
	}
	return nodes
}

// pkgRound runs the goroutines once. Without a clock, nothing orders what they do but the tree itself.
func pkgRound(c PkgCase, clocked bool) M {
	pm := astTraversal.NewPackageManager("")
	var clock, ready atomic.Int64
	events := make([][]pkgEvent, len(c.Work))
	var wg sync.WaitGroup
	for g := range c.Work {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			evs := make([]pkgEvent, 0, 2*len(c.Work[g]))
			ready.Add(1)
			for spins := 0; ready.Load() < int64(len(c.Work)); spins++ {
				if spins%200 == 199 {
					runtime.Gosched()
				}
			}
			for i, op := range c.Work[g] {
				var before, after int64
				if clocked {
					before = clock.Add(1)
				}
				nodes := pkgDo(pm, op)
				if clocked {
					after = clock.Add(1)
				}
				evs = append(evs, pkgEvent{at: before, T: "call", G: g + 1, I: i + 1}, pkgEvent{at: after, T: "return", G: g + 1, I: i + 1, found: nodes})
			}
			events[g] = evs
		}(g)
	}
	wg.Wait()

	var all []pkgEvent
	for _, evs := range events {
		all = append(all, evs...)
	}
	if clocked {
		sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	}
	numbers := map[*astTraversal.PackageNode]int{}
	var root *astTraversal.PackageNode
	number := func(n *astTraversal.PackageNode, asked string) M {
		if n == nil {
			return M{"asked": asked, "id": 0, "path": ""}
		}
		if numbers[n] == 0 {
			numbers[n] = len(numbers) + 1
		}
		if root == nil {
			for root = n; root.Parent != nil; {
				root = root.Parent
			}
		}
		return M{"asked": asked, "id": numbers[n], "path": n.Path()}
	}
	asked := map[string]bool{}
	for i, e := range all {
		all[i].Nodes = []M{}
		op := c.Work[e.G-1][e.I-1]
		for n, node := range e.found {
			p := ""
			if n < len(op.P) {
				p = op.P[n]
			}
			all[i].Nodes = append(all[i].Nodes, number(node, p))
		}
		for _, p := range op.P {
			asked[p] = true
			for n := range p {
				if p[n] == '/' {
					asked[p[:n]] = true
				}
			}
		}
	}
	paths := make([]string, 0, len(asked))
	for p := range asked {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	final, tree := []M{}, []M{}
	for _, p := range paths {
		final = append(final, number(pm.Find(p), p))
	}
	var dump func(n *astTraversal.PackageNode, path string)
	dump = func(n *astTraversal.PackageNode, path string) {
		for _, e := range n.Edges {
			p := e.Name
			if path != "" {
				p = path + "/" + e.Name
			}
			tree = append(tree, number(e, p))
			dump(e, p)
		}
	}
	if root != nil {
		dump(root, "")
	}
	sort.SliceStable(tree, func(i, j int) bool { return tree[i]["asked"].(string) < tree[j]["asked"].(string) })
	return M{"clocked": clocked, "events": all, "final": final, "tree": tree}
}

func runPackages(in *json.Decoder, out *json.Encoder, scratch string) error {
	for {
		var c PkgCase
		if err := in.Decode(&c); errors.Is(err, io.EOF) {
			return nil
		} else if err != nil {
			return err
		}
		runs, seen := []M{}, map[string]bool{}
		err := protect(func() error {
			for n := 0; n < c.Rounds; n++ {
				run := pkgRound(c, n%2 == 0)
				b, err := json.Marshal(run)
				if err != nil {
					return err
				}
				if !seen[string(b)] {
					seen[string(b)] = true
					runs = append(runs, run)
				}
			}
			return nil
		})
		if err := out.Encode(M{"id": c.ID, "case": M{"work": c.Work}, "obs": M{"err": errText(err), "runs": runs}}); err != nil {
			return err
		}
		if err := flush(); err != nil {
			return err
		}
	}
}
