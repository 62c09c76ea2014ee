// Command instr reads packages of the code under test and writes instrumented
// copies plus an overlay file for the go command. In the copies
//   - a yield point, simrt_.Y(site), precedes every statement,
//   - package sync is replaced by simsync,
//   - iteration over maps follows an order the simulator chooses.
//
// It works on whatever the tree contains; nothing about it is specific to the
// current text of the code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Error                         *struct{ Err string }
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type edit struct {
	off  int
	end  int // replaced range [off,end)
	text string
}

func main() {
	out := flag.String("out", "", "directory for the instrumented copies")
	overlay := flag.String("overlay", "", "overlay file to write (merged with -merge)")
	merge := flag.String("merge", "", "overlay file to merge in")
	module := flag.String("module", "github.com/danhhz/zeropb", "module whose packages are instrumented")
	level := flag.Int("level", 2, "2: everything, 1: no map orders, 0: nothing")
	skip := flag.String("skip", ".pb.go", "suffix of files left alone")
	flag.Parse()
	pats := flag.Args()

	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,Export,Name,GoFiles,Standard,Error"}, pats...)...)
	cmd.Stderr = os.Stderr
	outb, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(outb))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = &p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	ov := struct{ Replace map[string]string }{map[string]string{}}
	if *merge != "" {
		b, err := os.ReadFile(*merge)
		if err != nil {
			fatal("%v", err)
		}
		if err := json.Unmarshal(b, &ov); err != nil {
			fatal("%v", err)
		}
	}
	sites := []string{"(scheduler)"}
	var notes []string
	// The named packages and whatever else of the same module they use.
	var paths []string
	for path := range pkgs {
		if !pkgs[path].Standard && (path == *module || strings.HasPrefix(path, *module+"/")) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		p := pkgs[path]
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				fatal("%v", err)
			}
			af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(path, fset, files, info)
		if err != nil {
			fatal("type check: %v", err)
		}
		threads := false
		for _, af := range files {
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
					threads = true
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						threads = true
					}
				}
				return true
			})
		}
		if threads {
			notes = append(notes, path+": starts goroutines or uses channels, left uninstrumented")
			continue
		}
		if s := unsimulated(info); s != "" {
			notes = append(notes, path+": uses "+s+", which is not simulated; left uninstrumented")
			continue
		}
		if *level == 0 {
			notes = append(notes, path+": left uninstrumented")
			continue
		}
		helpers := &helperFile{pkg: tp, off: *level < 2}
		for i, af := range files {
			name := filepath.Join(p.Dir, p.GoFiles[i])
			if strings.HasSuffix(name, *skip) {
				continue
			}
			new, ok := instrument(fset, af, srcs[i], name, info, &sites, helpers)
			if !ok {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(strings.Trim(path, "/"), "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(dst, new, 0644); err != nil {
				fatal("%v", err)
			}
			ov.Replace[name] = dst
		}
		if helpers.n > 0 {
			dst := filepath.Join(*out, strings.ReplaceAll(path, "/", "_")+"_zz_simmaps.go")
			if err := os.WriteFile(dst, helpers.source(p.Name), 0644); err != nil {
				fatal("%v", err)
			}
			ov.Replace[filepath.Join(p.Dir, "zz_simmaps.go")] = dst
		}
	}
	b, _ := json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(*overlay, b, 0644); err != nil {
		fatal("%v", err)
	}
	sb, _ := json.Marshal(struct {
		Sites []string
		Notes []string
	}{sites, notes})
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0644); err != nil {
		fatal("%v", err)
	}
}

// unsimulated names something the package uses of package sync that simsync
// does not have.
func unsimulated(info *types.Info) string {
	var found []string
	for _, o := range info.Uses {
		if o.Pkg() == nil || o.Pkg().Path() != "sync" {
			continue
		}
		if o.Parent() != o.Pkg().Scope() {
			if o.Name() == "Go" {
				found = append(found, "sync.WaitGroup.Go")
			}
			continue
		}
		switch o.Name() {
		case "Mutex", "RWMutex", "Locker", "Once", "OnceFunc", "OnceValue", "OnceValues", "WaitGroup", "Pool", "Map", "Cond", "NewCond":
		default:
			found = append(found, "sync."+o.Name())
		}
	}
	sort.Strings(found)
	if len(found) == 0 {
		return ""
	}
	return found[0]
}

// local reports whether a type can't be written at package level: it involves a
// type declared in a function, or an unexported one of another package.
func local(t types.Type, pkg *types.Package, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.(type) {
	case *types.Alias:
		return local(types.Unalias(x), pkg, seen)
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return false
		}
		if o.Parent() != o.Pkg().Scope() || o.Pkg() != pkg && !o.Exported() {
			return true
		}
		for i := 0; i < x.TypeArgs().Len(); i++ {
			if local(x.TypeArgs().At(i), pkg, seen) {
				return true
			}
		}
		return false
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return local(x.Elem(), pkg, seen)
	case *types.Slice:
		return local(x.Elem(), pkg, seen)
	case *types.Array:
		return local(x.Elem(), pkg, seen)
	case *types.Chan:
		return local(x.Elem(), pkg, seen)
	case *types.Map:
		return local(x.Key(), pkg, seen) || local(x.Elem(), pkg, seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if f := x.Field(i); local(f.Type(), pkg, seen) || f.Pkg() != pkg && !f.Exported() {
				return true
			}
		}
	case *types.Signature:
		for _, tu := range []*types.Tuple{x.Params(), x.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if local(tu.At(i).Type(), pkg, seen) {
					return true
				}
			}
		}
	case *types.Interface:
		for i := 0; i < x.NumMethods(); i++ {
			if m := x.Method(i); local(m.Type(), pkg, seen) || m.Pkg() != pkg && !m.Exported() {
				return true
			}
		}
		for i := 0; i < x.NumEmbeddeds(); i++ {
			if local(x.EmbeddedType(i), pkg, seen) {
				return true
			}
		}
	}
	return false
}

type helperFile struct {
	pkg     *types.Package
	off     bool
	n       int
	body    bytes.Buffer
	imports map[string]string
}

func (h *helperFile) qual(p *types.Package) string {
	if p == h.pkg {
		return ""
	}
	if h.imports == nil {
		h.imports = map[string]string{}
	}
	if a, ok := h.imports[p.Path()]; ok {
		return a
	}
	a := fmt.Sprintf("imp%d", len(h.imports))
	h.imports[p.Path()] = a
	return a
}

// add emits an ordered-entries helper for the map type and returns its name.
func (h *helperFile) add(m *types.Map) string {
	h.n++
	fn := fmt.Sprintf("simMap_%d", h.n)
	ty := types.TypeString(m, h.qual)
	k := types.TypeString(m.Key(), h.qual)
	v := types.TypeString(m.Elem(), h.qual)
	fmt.Fprintf(&h.body, `
type %[1]sE struct {
	m %[2]s
	K %[3]s
}

func (e %[1]sE) live() bool { _, ok := e.m[e.K]; return ok }
func (e %[1]sE) V() %[4]s { return e.m[e.K] }

func %[1]s(m %[2]s) []%[1]sE {
	es := make([]%[1]sE, 0, len(m))
	for k := range m {
		es = append(es, %[1]sE{m, k})
	}
	simrt_.Order(len(es), func(i int) interface{} { return es[i].K }, func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}
`, fn, ty, k, v)
	return fn
}

func (h *helperFile) source(pkg string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport simrt_ \"verifsim/simrt\"\n", pkg)
	for p, a := range h.imports {
		fmt.Fprintf(&b, "import %s %q\n", a, p)
	}
	b.Write(h.body.Bytes())
	return b.Bytes()
}

func instrument(fset *token.FileSet, af *ast.File, src []byte, name string, info *types.Info, sites *[]string, h *helperFile) ([]byte, bool) {
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	site := func(p token.Pos) string {
		*sites = append(*sites, fmt.Sprintf("%s:%d", name, fset.Position(p).Line))
		return fmt.Sprintf("simrt_.Y(%d); ", len(*sites)-1)
	}
	n0 := len(*sites)
	list := func(ss []ast.Stmt) {
		for _, st := range ss {
			switch st.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			eds = append(eds, edit{off(st.Pos()), off(st.Pos()), site(st.Pos())})
		}
	}
	nosplit := map[*ast.BlockStmt]bool{}
	for _, d := range af.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil && fd.Body != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") {
					nosplit[fd.Body] = true
				}
			}
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if nosplit[x] {
				return false
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				o := off(x.Body.Lbrace) + 1
				eds = append(eds, edit{o, o, site(x.Pos())})
			}
		case *ast.RangeStmt:
			var body string
			if len(x.Body.List) == 0 {
				body = site(x.Pos())
			}
			tv, ok := info.Types[x.X]
			if ok {
				if m, isMap := tv.Type.Underlying().(*types.Map); isMap && !h.off && !local(m, h.pkg, map[types.Type]bool{}) {
					fn := h.add(m)
					e := fmt.Sprintf("sim_e%d", h.n)
					var asg string
					blank := func(ex ast.Expr) bool {
						id, ok := ex.(*ast.Ident)
						return ex == nil || ok && id.Name == "_"
					}
					text := func(ex ast.Expr) string { return string(src[off(ex.Pos()):off(ex.End())]) }
					var l, r []string
					if x.Key != nil && !blank(x.Key) {
						l, r = append(l, text(x.Key)), append(r, e+".K")
					}
					if x.Value != nil && !blank(x.Value) {
						l, r = append(l, text(x.Value)), append(r, e+".V()")
					}
					if len(l) > 0 {
						asg = strings.Join(l, ", ") + " " + x.Tok.String() + " " + strings.Join(r, ", ") + "; "
					}
					eds = append(eds,
						edit{off(x.For) + len("for"), off(x.X.Pos()), " _, " + e + " := range " + fn + "("},
						edit{off(x.X.End()), off(x.X.End()), ")"},
						edit{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, "if !" + e + ".live() { continue }; " + asg + body})
					return true
				}
			}
			if body != "" {
				o := off(x.Body.Lbrace) + 1
				eds = append(eds, edit{o, o, body})
			}
		}
		return true
	})
	for _, im := range af.Imports {
		if im.Path.Value == strconv.Quote("sync") {
			t := strconv.Quote("verifsim/simsync")
			if im.Name == nil {
				t = "sync " + t
			}
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), t})
		}
	}
	if len(*sites) == n0 && len(eds) == 0 {
		return nil, false
	}
	imp := "x"
	if len(*sites) == n0 {
		imp = ""
	}
	// The var has to follow all imports, so it goes to the end of the file.
	o := off(af.Name.End())
	if imp != "" {
		eds = append(eds, edit{o, o, "; import simrt_ \"verifsim/simrt\""})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var b bytes.Buffer
	pos := 0
	for _, e := range eds {
		if e.off < pos {
			fatal("%s: overlapping edits at %d", name, e.off)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return b.Bytes(), true
}
