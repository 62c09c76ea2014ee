// Command mkevo runs the protoc plugin under test on drawn families of schema
// versions and writes what it generates, with adapters, as packages
// verifsim/evogen/..., plus an overlay file that puts them there.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sync"
	"time"

	"verifsim/adapt"
	"verifsim/evo"
)

func die(code int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func main() {
	plugin := flag.String("plugin", "", "")
	seed := flag.Uint64("seed", 1, "")
	n := flag.Int("n", 4, "families")
	first := flag.Int("first", 0, "")
	dir := flag.String("dir", "", "output")
	merge := flag.String("merge", "", "overlay to merge in")
	sim := flag.String("sim", "/verif/sim", "")
	flag.Parse()
	ov := struct{ Replace map[string]string }{map[string]string{}}
	if *merge != "" {
		b, err := os.ReadFile(*merge)
		if err != nil {
			die(2, "%v", err)
		}
		if err := json.Unmarshal(b, &ov); err != nil {
			die(2, "%v", err)
		}
	}
	write := func(rel string, b []byte) {
		f := filepath.Join(*dir, rel)
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := os.WriteFile(f, b, 0644); err != nil {
			die(2, "%v", err)
		}
		ov.Replace[filepath.Join(*sim, "evogen", rel)] = f
	}
	if err := os.RemoveAll(*dir); err != nil {
		die(2, "%v", err)
	}
	type res struct {
		v   evo.Version
		out []evo.Out
		err error
	}
	var all []*res
	for i := *first; i < *first+*n; i++ {
		for _, v := range evo.Family(*seed, i) {
			all = append(all, &res{v: v})
		}
	}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, r := range all {
		wg.Add(1)
		go func(r *res) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			var out, errb bytes.Buffer
			cmd := exec.Command(*plugin)
			cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(evo.Request(r.v.Files)), &out, &errb
			if err := cmd.Start(); err != nil {
				die(2, "%v", err)
			}
			t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			t.Stop()
			if err != nil {
				s := errb.Bytes()
				if len(s) > 800 {
					s = s[:800]
				}
				r.err = fmt.Errorf("plugin: %v: %s", err, s)
				return
			}
			r.out, r.err = evo.Response(out.Bytes())
		}(r)
	}
	wg.Wait()
	for _, r := range all {
		if r.err != nil {
			die(1, "schema version %s: %v", r.v.Pkg, r.err)
		}
		for k, o := range r.out {
			base := path.Base(o.Name)
			if path.Ext(base) != ".go" || base == "" {
				base = fmt.Sprintf("file%d.go", k)
			}
			write(r.v.Pkg+"/"+base, []byte(o.Content))
		}
		write("adapt_"+r.v.Pkg+".go", adapt.Source("evogen", "verifsim/evogen/"+r.v.Pkg, r.v.Pkg, r.v.Adapt()))
	}
	write("seed.go", []byte(fmt.Sprintf("package evogen\n\nimport \"verifsim/scen\"\n\nfunc init() { scen.EvoSeed, scen.EvoFirst, scen.EvoN = %d, %d, %d }\n", *seed, *first, *n)))
	b, _ := json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(filepath.Join(*dir, "overlay.json"), b, 0644); err != nil {
		die(2, "%v", err)
	}
}
