// simgen puts the decimal module under the simulator.
//
// It reads the current, non-test sources of the instrumented packages and
// writes, into an output directory, copies of them in which
//
//   - every statement is preceded by a call of the simulator's yield function
//     (so the simulator decides every interleaving of caller tasks),
//   - the import of "sync" is replaced by the simulator's implementation
//     (locks, once, pools and wait groups become scheduler decisions), and
//   - go statements start simulated tasks,
//
// plus one generated file per package that can put the package's variables
// back to the state they have when a process starts ("restart").  The result is
// an overlay file for "go build -overlay": /repo itself is never touched, and
// without the overlay the shipped code is what it always was.
//
// Insertions are made on the original lines, so line numbers in stack traces
// and race reports are those of the original files.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rtAlias = "simrt__"

type edit struct {
	off int
	del int
	ins string
}

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
	Module     *struct{ Path string }
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	overlay := flag.String("overlay", "", "overlay file to write")
	raceOverlay := flag.String("race-overlay", "", "overlay file to write for race builds")
	stdpool := flag.String("stdpool", "", "replacement of $GOROOT/src/sync/pool.go for race builds")
	flag.Parse()
	pkgs := flag.Args()

	args := append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,Imports"}, pkgs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, eb.String())
	}
	all := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		all[p.ImportPath] = p
		if !p.Standard && p.Module != nil && p.Module.Path == "github.com/ericlagergren/decimal" {
			order = append(order, p)
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}

	replace := map[string]string{}
	sites := []string{""}
	for _, p := range order {
		instrument(p, *out, lookup, replace, &sites)
	}
	writeOverlay(*overlay, replace)
	if *raceOverlay != "" {
		gr, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			fatal("go env: %v", err)
		}
		r2 := map[string]string{}
		for k, v := range replace {
			r2[k] = v
		}
		r2[filepath.Join(strings.TrimSpace(string(gr)), "src/sync/pool.go")] = *stdpool
		writeOverlay(*raceOverlay, r2)
	}
	writeFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"))
}

func writeOverlay(name string, m map[string]string) {
	j, err := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	writeFile(name, append(j, '\n'))
}

// writeFile leaves an up-to-date file alone, so that its time stamp is kept.
func writeFile(name string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o777); err != nil {
		fatal("%v", err)
	}
	if old, err := os.ReadFile(name); err == nil && bytes.Equal(old, data) {
		return
	}
	if err := os.WriteFile(name, data, 0o666); err != nil {
		fatal("%v", err)
	}
}

func instrument(p *listPkg, out string, lookup func(string) (io.ReadCloser, error), replace map[string]string, sites *[]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(full)
		if err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		srcs[af] = src
		names[af] = f
	}
	info := &types.Info{
		Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type checking %s: %v", p.ImportPath, err)
	}

	short := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, "github.com/ericlagergren/decimal"), "/")
	outDir := filepath.Join(out, "src", short)

	type resetFile struct {
		inits []string
	}
	ninit := 0
	var initNames []string
	for _, af := range files {
		src := srcs[af]
		tf := fset.File(af.Pos())
		var edits []edit
		off := func(pos token.Pos) int { return tf.Offset(pos) }
		site := func(pos token.Pos) string {
			*sites = append(*sites, fmt.Sprintf("%s:%d", filepath.Join(short, names[af]), tf.Line(pos)))
			return strconv.Itoa(len(*sites) - 1)
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if e, ok := s.(*ast.EmptyStmt); ok && (e.Implicit || true) {
					continue
				}
				edits = append(edits, edit{off: off(s.Pos()), ins: rtAlias + ".Y(" + site(s.Pos()) + "); "})
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if n != nil {
					// The body of a switch or select holds clauses, not statements.
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					stmts(n.List)
				}
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.GoStmt:
				edits = append(edits,
					edit{off: off(n.Go), del: 2, ins: rtAlias + ".Go(func() {"},
					edit{off: off(n.Call.End()), ins: "})"})
			case *ast.ImportSpec:
				path, _ := strconv.Unquote(n.Path.Value)
				if path == "sync" {
					ins := `"verifsim/simsync"`
					if n.Name == nil {
						ins = "sync " + ins
					}
					edits = append(edits, edit{off: off(n.Path.Pos()), del: len(n.Path.Value), ins: ins})
				}
			case *ast.FuncDecl:
				if n.Recv == nil && n.Name.Name == "init" {
					ninit++
					nn := fmt.Sprintf("simInit__%d", ninit)
					initNames = append(initNames, nn)
					edits = append(edits, edit{off: off(n.Name.Pos()), del: 4, ins: nn})
				}
			}
			return true
		})
		edits = append(edits, edit{off: off(af.Name.End()), ins: "; import " + rtAlias + ` "verifsim/rt"`})
		text := apply(src, edits) + "\nvar _ = " + rtAlias + ".Y\n"
		dst := filepath.Join(outDir, names[af])
		writeFile(dst, []byte(text))
		replace[filepath.Join(p.Dir, names[af])] = dst
	}

	// The restart function: package variables in initialisation order, those
	// without an initialiser back to zero, then the init functions.
	var body bytes.Buffer
	imports := map[string]string{} // path -> alias used
	// For initialised variables re-run the initialiser.  The generated code
	// must live in the file that has the right imports, so one function per
	// variable is appended to the file that declares it.
	appended := map[*ast.File][]string{}
	fileOf := func(pos token.Pos) *ast.File {
		for _, af := range files {
			if fset.File(af.Pos()) == fset.File(pos) {
				return af
			}
		}
		return nil
	}
	n := 0
	seen := map[*types.Var]bool{}
	for _, in := range tpkg.Scope().Names() {
		_ = in
	}
	var zeroed []string
	for _, af := range files {
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) != 0 || vs.Type == nil {
					continue
				}
				for _, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					n++
					fn := fmt.Sprintf("simReset__%d", n)
					var tb bytes.Buffer
					printer.Fprint(&tb, fset, vs.Type)
					appended[af] = append(appended[af], fmt.Sprintf("func %s() { %s = *new(%s) }", fn, id.Name, tb.String()))
					zeroed = append(zeroed, fn)
				}
			}
		}
	}
	for _, z := range zeroed {
		fmt.Fprintf(&body, "\t%s()\n", z)
	}
	for _, in := range info.InitOrder {
		if len(in.Lhs) == 0 {
			continue
		}
		af := fileOf(in.Rhs.Pos())
		if af == nil {
			continue
		}
		src := srcs[af]
		tf := fset.File(af.Pos())
		rhs := string(src[tf.Offset(in.Rhs.Pos()):tf.Offset(in.Rhs.End())])
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			seen[v] = true
		}
		typ := ""
		if len(in.Lhs) == 1 && in.Lhs[0].Name() != "_" {
			typ = ""
		}
		_ = typ
		n++
		fn := fmt.Sprintf("simReset__%d", n)
		appended[af] = append(appended[af], fmt.Sprintf("func %s() { %s = %s }", fn, strings.Join(lhs, ", "), rhs))
		fmt.Fprintf(&body, "\t%s()\n", fn)
	}
	_ = imports
	for _, nn := range initNames {
		fmt.Fprintf(&body, "\t%s()\n", nn)
	}
	for af, fns := range appended {
		dst := replace[filepath.Join(p.Dir, names[af])]
		old, err := os.ReadFile(dst)
		if err != nil {
			fatal("%v", err)
		}
		writeFile(dst, append(old, []byte("\n"+strings.Join(fns, "\n")+"\n")...))
	}
	gen := fmt.Sprintf("package %s\n\nimport %s \"verifsim/rt\"\n\nfunc init() {\n", p.Name, rtAlias)
	for _, nn := range initNames {
		gen += "\t" + nn + "()\n"
	}
	gen += fmt.Sprintf("\t%s.RegisterReset(%q, simReset__)\n}\n\nfunc simReset__() {\n%s}\n", rtAlias, p.ImportPath, body.String())
	dst := filepath.Join(outDir, "zz_sim_reset.go")
	writeFile(dst, []byte(gen))
	replace[filepath.Join(p.Dir, "zz_sim_reset.go")] = dst
}

func apply(src []byte, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.off < last {
			// nested deletion; cannot happen for the edits made here
			fatal("overlapping edits at %d", e.off)
		}
		b.Write(src[last:e.off])
		b.WriteString(e.ins)
		last = e.off + e.del
	}
	b.Write(src[last:])
	return b.String()
}
