// Command overlay prepares the build of the simulator: it patches copies of
// the runtime and net packages (scheduler, clock, randomness, UDP sockets
// behind a seam) and instruments copies of /repo's source files with
// scheduling points. It writes an overlay.json for "go build -overlay".
// Neither GOROOT nor /repo is changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var replace = map[string]string{}
var outDir string

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "overlay: "+f+"\n", a...)
	os.Exit(2)
}

func writeIfChanged(path string, data []byte) {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(data) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		fatal("%v", err)
	}
}

type edit struct{ old, new string }

// patch applies anchored edits to a copy of a GOROOT file. Every anchor must
// occur exactly once.
func patch(goroot, rel string, edits ...edit) {
	src := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(src)
	if err != nil {
		fatal("%v", err)
	}
	s := string(b)
	for _, e := range edits {
		if n := strings.Count(s, e.old); n != 1 {
			fatal("%s: anchor %q occurs %d times", rel, e.old, n)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	dst := filepath.Join(outDir, "goroot", rel)
	writeIfChanged(dst, []byte(s))
	replace[src] = dst
}

func main() {
	goroot := flag.String("goroot", "", "")
	repo := flag.String("repo", "/repo", "")
	here := flag.String("here", ".", "directory of this tool")
	instrument := flag.Bool("instrument", true, "")
	flag.StringVar(&outDir, "out", "", "")
	flag.Parse()

	patch(*goroot, "runtime/runtime2.go", edit{
		"	// valgrindStackID is used to track what memory is used for stacks when a program is\n",
		"	simEpoch, simSeq, simPrio, simSite uint32\n\n	// valgrindStackID is used to track what memory is used for stacks when a program is\n"})
	patch(*goroot, "runtime/proc.go",
		edit{"	now, pollUntil, _ := pp.timers.check(0, nil)\n",
			"	if sim.on {\n		simTick(pp)\n	}\n	now, pollUntil, _ := pp.timers.check(0, nil)\n	if sim.on {\n		if gp := simPick(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n"},
		edit{"func runqput(pp *p, gp *g, next bool) {\n",
			"func runqput(pp *p, gp *g, next bool) {\n	if sim.on && gp.simEpoch == sim.cur {\n		simPut(gp)\n		return\n	}\n"},
		edit{"func globrunqput(gp *g) {\n",
			"func globrunqput(gp *g) {\n	if sim.on && gp.simEpoch == sim.cur {\n		gp.simPrio = simLower()\n		simPut(gp)\n		return\n	}\n"},
		edit{"func retake(now int64) uint32 {\n",
			"func retake(now int64) uint32 {\n	if sim.on {\n		return 0\n	}\n"},
		edit{"	newg.goid = pp.goidcache\n", "	newg.goid = pp.goidcache\n	simNewG(newg)\n"},
	)
	patch(*goroot, "runtime/select.go", edit{
		"		j := cheaprandn(uint32(norder + 1))\n",
		"		var j uint32\n		if gp.simEpoch == sim.cur {\n			if norder > 0 {\n				j = simDecide(2, uint32(norder+1))\n			}\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"})
	patch(*goroot, "runtime/rand.go",
		edit{"	globalRand.state.Init(*seed)\n", "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	globalRand.state.Init(*seed)\n"},
		edit{"func rand() uint64 {\n", "func rand() uint64 {\n	if sim.on && getg().simEpoch == sim.cur {\n		return simRand2()\n	}\n"})
	patch(*goroot, "runtime/time_nofake.go",
		edit{"func nanotime() int64 {\n	return nanotime1()\n}", "func nanotime() int64 {\n	return simNow\n}"})
	// The runtime's own waits go by the real clock.
	patch(*goroot, "runtime/lock_futex.go",
		edit{"	deadline := nanotime() + ns\n", "	deadline := nanotime1() + ns\n"},
		edit{"		now := nanotime()\n", "		now := nanotime1()\n"})
	patch(*goroot, "runtime/mgcscavenge.go",
		edit{"func (s *scavengerState) wake() {\n", "func (s *scavengerState) wake() {\n	if s != nil {\n		return // its timers would share the simulated clock\n	}\n"})
	patch(*goroot, "runtime/time.go",
		edit{"	return time_now()\n}", "	return simNow / 1000000000, int32(simNow % 1000000000), simNow\n}"})
	z, err := os.ReadFile(filepath.Join(*here, "zsim.go.txt"))
	if err != nil {
		fatal("%v", err)
	}
	zdst := filepath.Join(outDir, "goroot", "runtime", "zsim.go")
	writeIfChanged(zdst, z)
	replace[filepath.Join(*goroot, "src/runtime/zsim.go")] = zdst

	patchNet(*goroot, *here)

	sites := instrumentRepo(*repo, *instrument)

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	writeIfChanged(filepath.Join(outDir, "overlay.json"), b)
	sb, _ := json.Marshal(sites)
	writeIfChanged(filepath.Join(outDir, "sites.json"), sb)
}

// ---- /repo instrumentation ----

type ins struct {
	off  int
	text string
}

func instrumentRepo(repo string, on bool) []string {
	sites := []string{"-"}
	var files []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	if !on {
		return sites
	}
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		rel, _ := filepath.Rel(repo, p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil || f.Name.Name == "main" {
			continue
		}
		var edits []ins
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		var fn string
		addSite := func(pos token.Pos) int {
			sites = append(sites, fmt.Sprintf("%s:%d %s", rel, fset.Position(pos).Line, fn))
			return len(sites) - 1
		}
		list := func(l []ast.Stmt) {
			for _, st := range l {
				switch x := st.(type) {
				case *ast.EmptyStmt:
					continue
				case *ast.DeclStmt:
					_ = x
				}
				edits = append(edits, ins{off(st.Pos()), fmt.Sprintf("verifrt.SimYield(%d);", addSite(st.Pos()))})
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				// function literals in package variables run at init or later
				fn = "var"
				if !ok {
					ast.Inspect(d, visit(list, &edits, off, addSite))
				}
				continue
			}
			if hasDirective(fd) {
				continue
			}
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					fn = id.Name + "." + fn
				}
			}
			ast.Inspect(fd.Body, visit(list, &edits, off, addSite))
		}
		if len(edits) == 0 {
			continue
		}
		edits = append(edits, ins{off(f.Name.End()), `; import verifrt "runtime"`})
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var out strings.Builder
		last := 0
		for _, e := range edits {
			out.Write(src[last:e.off])
			out.WriteString(e.text)
			last = e.off
		}
		out.Write(src[last:])
		dst := filepath.Join(outDir, "repo", rel)
		writeIfChanged(dst, []byte(out.String()))
		replace[p] = dst
	}
	return sites
}

// hasDirective reports compiler directives under which extra calls may not compile.
func hasDirective(fd *ast.FuncDecl) bool {
	if fd.Doc == nil {
		return false
	}
	for _, c := range fd.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
			return true
		}
	}
	return false
}

func visit(list func([]ast.Stmt), edits *[]ins, off func(token.Pos) int, addSite func(token.Pos) int) func(ast.Node) bool {
	return func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if !isClauseList(x.List) {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				*edits = append(*edits, ins{off(x.Body.Lbrace) + 1, fmt.Sprintf("verifrt.SimYield(%d);", addSite(x.Pos()))})
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				*edits = append(*edits, ins{off(x.Body.Lbrace) + 1, fmt.Sprintf("verifrt.SimYield(%d);", addSite(x.Pos()))})
			}
		}
		return true
	}
}

func isClauseList(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch l[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}
