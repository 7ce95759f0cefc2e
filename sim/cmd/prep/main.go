// prep turns the current working tree of the library into an overlay for
// "go build -overlay": every library source file is replaced by a copy with a
// simulator hook before each statement and in each loop body, "sync" becomes
// the simulator's drop-in package, and a few places of the Go runtime and
// standard library (map iteration, hash seeds, time.Now, math/rand, sync.Pool)
// read the simulator's values. Nothing in the library's tree is changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

type site struct {
	ID   int
	File string
	Line int
	Func string
}

var (
	sites   []site
	replace = map[string]string{}
	outDir  string
	module  string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	src := flag.String("src", "/verif/sim/overlay", "")
	flag.Parse()
	outDir = *out
	goroot := goEnv("GOROOT")

	cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Module,Standard", "./ast/...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	type pkg struct {
		ImportPath, Dir   string
		GoFiles, CgoFiles []string
		CFiles            []string
		Standard          bool
		Module            *struct {
			Path string
			Main bool
		}
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	var pkgs []pkg
	for dec.More() {
		var p pkg
		if err := dec.Decode(&p); err != nil {
			die("go list output: %v", err)
		}
		if p.Standard || p.Module == nil || !p.Module.Main {
			continue
		}
		module = p.Module.Path
		if strings.HasSuffix(p.ImportPath, "/mock") {
			continue
		}
		pkgs = append(pkgs, p)
	}
	if len(pkgs) == 0 {
		die("no packages found in %s", *repo)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	for _, p := range pkgs {
		for _, f := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
			findChans(filepath.Join(p.Dir, f))
		}
	}
	delete(chanNames, "")
	for _, p := range pkgs {
		for _, f := range p.CFiles {
			instrumentC(filepath.Join(p.Dir, f))
		}
		files := append(append([]string{}, p.GoFiles...), p.CgoFiles...)
		sort.Strings(files)
		for _, f := range files {
			instrument(filepath.Join(p.Dir, f), *repo)
		}
	}

	// the C glue goes into an existing directory
	{
		c, err := os.ReadFile(filepath.Join(*src, "glue", "zz_glue.go"))
		must(err)
		write(filepath.Join(*repo, "ast", "zz_glue.go"), strings.ReplaceAll(string(c), "SIMMODULE", module))
	}

	// simulator packages, placed inside the library's module
	for _, d := range []string{"hook", "simsync", "simrun"} {
		es, err := os.ReadDir(filepath.Join(*src, d))
		if err != nil {
			die("%v", err)
		}
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			c, err := os.ReadFile(filepath.Join(*src, d, e.Name()))
			if err != nil {
				die("%v", err)
			}
			t := strings.ReplaceAll(string(c), "SIMMODULE", module)
			write(filepath.Join(*repo, "zzverif", d, e.Name()), t)
		}
	}

	patchStd(goroot)

	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(outDir, "overlay.json"), js, 0o644))
	js, _ = json.Marshal(sites)
	must(os.WriteFile(filepath.Join(outDir, "sites.json"), js, 0o644))
	fmt.Printf("%s\n", module)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func goEnv(k string) string {
	b, err := exec.Command("go", "env", k).Output()
	if err != nil {
		die("go env: %v", err)
	}
	return strings.TrimSpace(string(b))
}

var nfile int

func write(target, text string) {
	nfile++
	p := filepath.Join(outDir, fmt.Sprintf("f%03d_%s", nfile, filepath.Base(target)))
	must(os.WriteFile(p, []byte(text), 0o644))
	replace[target] = p
}

func sortedUses(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// movable: an argument that has a type of its own and can be evaluated early.
func movable(f *ast.File, e ast.Expr) bool {
	switch v := e.(type) {
	case *ast.Ident:
		if v.Name == "nil" || v.Name == "true" || v.Name == "false" || v.Name == "iota" {
			return false
		}
		return v.Obj != nil && v.Obj.Kind == ast.Var
	case *ast.SelectorExpr:
		if x, ok := v.X.(*ast.Ident); ok && x.Obj == nil {
			return false // perhaps a constant of a package
		}
		return true
	case *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.UnaryExpr:
		return v.Op == token.AND
	}
	return false
}

// chanNames: names that stand for channels somewhere in the library.
var chanNames = map[string]bool{}

func lastName(e ast.Expr) string {
	switch v := e.(type) {
	case *ast.Ident:
		return v.Name
	case *ast.SelectorExpr:
		return v.Sel.Name
	}
	return ""
}

func findChans(path string) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		die("parse %s: %v", path, err)
	}
	isChan := func(e ast.Expr) bool {
		if c, ok := e.(*ast.CallExpr); ok && lastName(c.Fun) == "make" && len(c.Args) > 0 {
			e = c.Args[0]
		}
		_, ok := e.(*ast.ChanType)
		return ok
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.Field:
			if isChan(v.Type) {
				for _, id := range v.Names {
					chanNames[id.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, id := range v.Names {
				if v.Type != nil && isChan(v.Type) || i < len(v.Values) && isChan(v.Values[i]) {
					chanNames[id.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range v.Lhs {
				if i < len(v.Rhs) && isChan(v.Rhs[i]) {
					chanNames[lastName(l)] = true
				}
			}
		}
		return true
	})
}

// simCalls are the functions of other packages that the simulator stands in for.
var simCalls = regexp.MustCompile(`\b(runtime\.(SetFinalizer|Gosched)|time\.(Sleep|AfterFunc|After|NewTimer|NewTicker|Tick))\b`)

func instrument(path, repo string) {
	src, err := os.ReadFile(path)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("parse %s: %v", path, err)
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	rel, _ := filepath.Rel(repo, path)
	var edits []edit
	add := func(o, del int, t string) { edits = append(edits, edit{o, del, t, len(edits)}) }
	fn, use := "", map[string]bool{}
	newSite := func(p token.Pos) string {
		id := len(sites) + 1
		sites = append(sites, site{id, rel, fset.PositionFor(p, false).Line, fn})
		return "zzhook.P(" + strconv.Itoa(id) + ");"
	}
	point := func(p token.Pos) { add(off(p), 0, newSite(p)) }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch v := s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.LabeledStmt:
				point(v.Pos())
				switch v.Stmt.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.LabeledStmt, *ast.BlockStmt:
				default:
					point(v.Stmt.Pos())
				}
			default:
				point(s.Pos())
			}
		}
	}
	body := func(b *ast.BlockStmt) {
		if b != nil {
			add(off(b.Lbrace)+1, 0, newSite(b.Lbrace))
		}
	}
	for _, d := range f.Decls {
		switch v := d.(type) {
		case *ast.FuncDecl:
			fn = v.Name.Name
			if v.Recv != nil && len(v.Recv.List) > 0 {
				t := v.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					fn = id.Name + "." + fn
				}
			}
		default:
			fn = "init"
		}
		recv2 := map[*ast.UnaryExpr]bool{}
		var inspect func(n ast.Node) bool
		inspect = func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.BlockStmt:
				list(v.List)
			case *ast.CaseClause:
				list(v.Body)
			case *ast.CommClause:
				list(v.Body)
			case *ast.ForStmt:
				body(v.Body)
			case *ast.RangeStmt:
				body(v.Body)
				if v.Value == nil && chanNames[lastName(v.X)] {
					add(off(v.X.Pos()), 0, "zzhook.ChanRange(")
					add(off(v.X.End()), 0, ")")
				}
			case *ast.GoStmt:
				// a goroutine the library starts becomes a simulated task; arguments
				// that may change are evaluated now
				names, vals := "", ""
				if v.Call.Ellipsis == 0 {
					for i, a := range v.Call.Args {
						if movable(f, a) {
							n := "zzarg" + strconv.Itoa(i)
							if names != "" {
								names, vals = names+", ", vals+", "
							}
							names, vals = names+n, vals+string(src[off(a.Pos()):off(a.End())])
							add(off(a.Pos()), off(a.End())-off(a.Pos()), n)
						}
					}
				}
				if names != "" {
					add(off(v.Go), len("go"), "{ "+names+" := "+vals+"; zzhook.Go(func() {")
					add(off(v.Call.End()), 0, "}) }")
					ast.Inspect(v.Call.Fun, inspect)
					return false
				}
				add(off(v.Go), len("go"), "zzhook.Go(func() {")
				add(off(v.Call.End()), 0, "})")
			case *ast.SelectStmt:
				// a switch over what zzhook.Select did; its last case stands as the
				// default, so that it ends a function where the select does
				text := func(n ast.Node) string {
					return simCalls.ReplaceAllStringFunc(string(src[off(n.Pos()):off(n.End())]), func(s string) string {
						use["\nvar _ = "+s+"\n"] = true
						return "zzhook" + s[strings.Index(s, "."):]
					})
				}
				var names, vals []string
				def := false
				for _, c := range v.Body.List {
					def = def || c.(*ast.CommClause).Comm == nil
				}
				for i, s := range v.Body.List {
					c := s.(*ast.CommClause)
					name := "zzc" + strconv.Itoa(len(names))
					head := "case " + strconv.Itoa(len(names)) + ":"
					if c.Comm == nil || !def && i == len(v.Body.List)-1 {
						head = "default:"
					}
					recv := func(e ast.Expr) {
						for {
							p, ok := e.(*ast.ParenExpr)
							if !ok {
								break
							}
							e = p.X
						}
						vals = append(vals, "zzhook.SelRecv("+text(e.(*ast.UnaryExpr).X)+")")
						names = append(names, name)
					}
					switch m := c.Comm.(type) {
					case *ast.SendStmt:
						vals = append(vals, "zzhook.SelSend("+text(m.Chan)+")("+text(m.Value)+")")
						names = append(names, name)
					case *ast.ExprStmt:
						recv(m.X)
					case *ast.AssignStmt:
						recv(m.Rhs[0])
						l := text(m.Lhs[0])
						r := name + ".V"
						if len(m.Lhs) == 2 {
							l, r = l+", "+text(m.Lhs[1]), r+", "+name+".OK"
						}
						head += " " + l + " " + m.Tok.String() + " " + r + ";"
					}
					add(off(c.Case), off(c.Colon)+1-off(c.Case), head)
					list(c.Body)
					for _, s := range c.Body {
						ast.Inspect(s, inspect)
					}
				}
				t := "switch "
				if len(names) > 0 {
					t += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
				}
				t += "zzhook.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ") "
				add(off(v.Select), off(v.Body.Lbrace)-off(v.Select), t)
				if len(v.Body.List) == 0 {
					add(off(v.Body.Lbrace)+1, 0, "default: panic(0)")
				}
				return false
			case *ast.SendStmt:
				add(off(v.Chan.Pos()), 0, "zzhook.ChanSend(")
				add(off(v.Chan.End()), off(v.Value.Pos())-off(v.Chan.End()), ")(")
				add(off(v.Value.End()), 0, ")")
			case *ast.UnaryExpr:
				if v.Op == token.ARROW {
					f := "zzhook.ChanRecv("
					if recv2[v] {
						f = "zzhook.ChanRecv2("
					}
					add(off(v.OpPos), len("<-"), f)
					add(off(v.X.End()), 0, ")")
				}
			case *ast.AssignStmt:
				if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
					if u, ok := v.Rhs[0].(*ast.UnaryExpr); ok {
						recv2[u] = true
					}
				}
			case *ast.ValueSpec:
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if u, ok := v.Values[0].(*ast.UnaryExpr); ok {
						recv2[u] = true
					}
				}
			case *ast.SelectorExpr:
				if x, ok := v.X.(*ast.Ident); ok && x.Obj == nil {
					if n := x.Name + "." + v.Sel.Name; simCalls.FindString(n) == n {
						add(off(v.Pos()), len(x.Name)+1, "zzhook.")
						use["\nvar _ = "+n+"\n"] = true
					}
				}
			case *ast.CallExpr:
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "close" && len(v.Args) == 1 {
					add(off(id.Pos()), len("close"), "zzhook.ChanClose")
				}
			}
			return true
		}
		ast.Inspect(d, inspect)
	}
	// C code in the preamble: a hook in every loop
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, sp := range gd.Specs {
			im := sp.(*ast.ImportSpec)
			if im.Path.Value != `"C"` {
				continue
			}
			doc := im.Doc
			if doc == nil {
				doc = gd.Doc
			}
			if doc == nil {
				continue
			}
			for i, c := range doc.List {
				hooks, at := cHooks(c.Text)
				if strings.HasPrefix(c.Text, "/*") && i == 0 {
					add(off(c.Pos())+2, 0, cPrologue)
				} else if i == 0 {
					add(off(c.Pos()), 0, "/*"+cPrologue+"*/\n")
				}
				for k := range at {
					add(off(c.Pos())+at[k], 0, hooks[k])
				}
			}
		}
	}
	// imports
	hooked := len(sites) > 0
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			add(off(im.Path.Pos()), len(im.Path.Value), name+`"`+module+`/zzverif/simsync"`)
		}
	}
	if hooked {
		add(off(f.Name.End()), 0, "; import zzhook \""+module+"/zzverif/hook\"; var _ = zzhook.P")
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.off + e.del
	}
	b.Write(src[last:])
	text := b.String()
	// the "var _" must come after all imports: move it to the end of the file
	if hooked {
		text = strings.Replace(text, "; var _ = zzhook.P", "", 1)
		text += "\n\nvar _ = zzhook.P\n"
		for _, u := range sortedUses(use) {
			text += u
		}
	}
	if _, err := parser.ParseFile(token.NewFileSet(), path, text, 0); err != nil {
		die("instrumented %s does not parse: %v", path, err)
	}
	write(path, text)
}

// instrumentC puts hooks into the loops of a C file that belongs to a package.
func instrumentC(path string) {
	b, err := os.ReadFile(path)
	must(err)
	t := "\n" + string(b) // so that a comment at the start is one
	hooks, at := cHooks(t)
	var o strings.Builder
	o.WriteString(cPrologue)
	last := 0
	for i, k := range at {
		o.WriteString(t[last:k] + hooks[i])
		last = k
	}
	o.WriteString(t[last:])
	write(path, o.String())
}

const cPrologue = " unsigned long zzsim_cticks __attribute__((weak)); void (*zzsim_hook)(void) __attribute__((weak)); static int zz_tick(void) { zzsim_cticks++; if (zzsim_hook) zzsim_hook(); return 0; } "

// cHooks finds the places in C text where a loop's body starts.
func cHooks(t string) (hooks []string, at []int) {
	const h = " if (zz_tick()) {} else "
	word := func(i int, w string) bool {
		isw := func(c byte) bool {
			return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		}
		return strings.HasPrefix(t[i:], w) && (i == 0 || !isw(t[i-1])) && (i+len(w) == len(t) || !isw(t[i+len(w)]))
	}
	// skip returns the index after a comment, string or character starting at i, or i
	skip := func(i int) int {
		switch {
		case strings.HasPrefix(t[i:], "//"):
			if j := strings.IndexByte(t[i:], '\n'); j >= 0 {
				return i + j
			}
			return len(t)
		case strings.HasPrefix(t[i:], "/*") && i > 0:
			if j := strings.Index(t[i:], "*/"); j >= 0 {
				return i + j + 2
			}
			return len(t)
		case t[i] == '"' || t[i] == '\'':
			q := t[i]
			j := i + 1
			for j < len(t) && t[j] != q {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			return min(len(t), j+1)
		}
		return i
	}
	for i := 0; i < len(t); {
		if i == 0 && strings.HasPrefix(t, "//") {
			return
		}
		if j := skip(i); j > i {
			i = j
			continue
		}
		if word(i, "do") {
			hooks, at = append(hooks, h), append(at, i+2)
			i += 2
			continue
		}
		n := 0
		if word(i, "for") {
			n = 3
		} else if word(i, "while") {
			n = 5
		}
		if n == 0 {
			i++
			continue
		}
		j := i + n
		for j < len(t) && t[j] != '(' {
			j++
		}
		depth := 0
		for j < len(t) {
			if k := skip(j); k > j {
				j = k
				continue
			}
			if t[j] == '(' {
				depth++
			} else if t[j] == ')' {
				depth--
				if depth == 0 {
					j++
					break
				}
			}
			j++
		}
		k := j
		for k < len(t) && (t[k] == ' ' || t[k] == '\t' || t[k] == '\n' || t[k] == '\r') {
			k++
		}
		if !(n == 5 && k < len(t) && t[k] == ';') { // do ... while (x); or an empty loop
			hooks, at = append(hooks, h), append(at, j)
		}
		i = j
	}
	return
}

func patch(goroot, rel string, subs ...[2]string) {
	p := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(p)
	must(err)
	t := string(b)
	for _, s := range subs {
		re := regexp.MustCompile(s[0])
		if !re.MatchString(t) {
			die("std patch of %s: %q does not match", rel, s[0])
		}
		t = re.ReplaceAllString(t, s[1])
	}
	write(p, t)
}

// scans makes the searching functions of package strings or bytes count the
// bytes they look at.
func scans(goroot, pkg, typ string) {
	b := "package " + pkg + "\n\nimport \"runtime\"\n\n"
	names := ""
	for _, f := range []struct{ name, args, call, cost string }{
		{"Count", "s, x T", "s, x", "len(s)"},
		{"Index", "s, x T", "s, x", "first"},
		{"IndexByte", "s T, x byte", "s, x", "first"},
		{"IndexRune", "s T, x rune", "s, x", "first"},
		{"IndexAny", "s T, x string", "s, x", "first"},
		{"IndexFunc", "s T, x func(rune) bool", "s, x", "first"},
		{"LastIndex", "s, x T", "s, x", "last"},
		{"LastIndexByte", "s T, x byte", "s, x", "last"},
		{"LastIndexAny", "s T, x string", "s, x", "last"},
		{"LastIndexFunc", "s T, x func(rune) bool", "s, x", "last"},
		{"Map", "m func(rune) rune, s T", "m, s", "text"},
		{"ToLower", "s T", "s", "text"},
		{"ToUpper", "s T", "s", "text"},
		{"Fields", "s T", "s", "list"},
	} {
		args := strings.ReplaceAll(f.args, "T", typ)
		names += "|" + f.name
		switch f.cost {
		case "len(s)":
			b += fmt.Sprintf("func %s(%s) int { runtime.SimScan(len(s)); return zz%[1]s(%[3]s) }\n", f.name, args, f.call)
		case "text":
			b += fmt.Sprintf("func %s(%s) %s { runtime.SimScan(len(s)); return zz%[1]s(%[4]s) }\n", f.name, args, typ, f.call)
		case "list":
			b += fmt.Sprintf("func %s(%s) []%s { runtime.SimScan(len(s)); return zz%[1]s(%[4]s) }\n", f.name, args, typ, f.call)
		case "first":
			b += fmt.Sprintf("func %s(%s) int { n := zz%[1]s(%[3]s); if n < 0 { runtime.SimScan(len(s)) } else { runtime.SimScan(n) }; return n }\n", f.name, args, f.call)
		case "last":
			b += fmt.Sprintf("func %s(%s) int { n := zz%[1]s(%[3]s); runtime.SimScan(len(s) - max(n, 0)); return n }\n", f.name, args, f.call)
		}
	}
	patch(goroot, pkg+"/"+pkg+".go", [2]string{`(?m)^func (` + names[1:] + `)\(`, "func zz$1("})
	write(filepath.Join(goroot, "src", pkg, "zz_sim.go"), b)
}

func patchStd(goroot string) {
	for _, f := range []string{"map.go", "map_fast32.go", "map_fast64.go", "map_faststr.go"} {
		patch(goroot, "runtime/"+f, [2]string{`\brand\(\)`, "simMapRand()"})
	}
	patch(goroot, "runtime/alg.go", [2]string{`bootstrapRand\(\)`, "simHashSeed()"})
	write(filepath.Join(goroot, "src/runtime/zz_sim.go"), `package runtime

import _ "unsafe"

var (
	simMapSt  uint64 = 0x1c1c1c
	simRandSt uint64 = 0x2d2d2d
	simSeedSt uint64 = 0x3e3e3e
)

func simMix(p *uint64) uint64 {
	*p += 0x9e3779b97f4a7c15
	z := *p
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simHashSeed() uint64 { return simMix(&simSeedSt) }
func simMapRand() uint64  { return simMix(&simMapSt) }

// SimRandom decides math/rand's global source.
//
//go:linkname SimRandom
func SimRandom() uint64 { return simMix(&simRandSt) }

// Work done inside the runtime and the standard library: bytes allocated, and
// bytes looked at by functions that scan text.
var simAlloc, simScan uint64

func SimScan(n int)            { simScan += uint64(n) }
func SimWork() (a, s uint64)   { return simAlloc, simScan }

// SimStack is the size of the running goroutine's stack.
func SimStack() int { gp := getg(); return int(gp.stack.hi - gp.stack.lo) }

// SimFinIdle: no finalizer is due or running.
func SimFinIdle() bool {
	st := fingStatus.Load()
	return st&fingCreated == 0 || finq == nil && st&fingWait != 0
}

// SimSeed sets the seeds of map iteration order, new maps' hash seeds and math/rand.
func SimSeed(m, r uint64) { simMapSt, simRandSt = m, r }
`)
	patch(goroot, "runtime/malloc.go", [2]string{`(?m)^(func mallocgc\(size uintptr.*\{)$`, "$1\n\tsimAlloc += uint64(size)"})
	patch(goroot, "runtime/utf8.go", [2]string{`(?m)^(func countrunes\(s string\) int \{)$`, "$1\n\tsimScan += uint64(len(s))"})
	scans(goroot, "strings", "string")
	scans(goroot, "bytes", "[]byte")
	patch(goroot, "unicode/utf8/utf8.go", [2]string{`(?m)^func (RuneCountInString\(s string\)|RuneCount\(p \[\]byte\)) `, "func zz$1 "})
	write(filepath.Join(goroot, "src/unicode/utf8/zz_sim.go"), `package utf8

import "runtime"

func RuneCountInString(s string) (n int) { runtime.SimScan(len(s)); return zzRuneCountInString(s) }
func RuneCount(p []byte) int             { runtime.SimScan(len(p)); return zzRuneCount(p) }
`)
	patch(goroot, "math/rand/rand.go", [2]string{`linkname runtime_rand runtime\.rand`, "linkname runtime_rand runtime.SimRandom"})
	patch(goroot, "math/rand/v2/rand.go", [2]string{`linkname runtime_rand runtime\.rand`, "linkname runtime_rand runtime.SimRandom"})
	// race mode drops pooled objects at random; always dropping is legal, repeatable and hides no race
	patch(goroot, "sync/pool.go", [2]string{`runtime_randn\(4\) == 0`, "true"})
	patch(goroot, "time/time.go", [2]string{`(?m)^func Now\(\) Time \{`, `// SimNow is the simulated clock, in nanoseconds since 1970 (0: the real clock).
var SimNow, SimStep, SimReads int64

//go:norace
func Now() Time {
	if SimNow != 0 {
		SimReads++
		SimNow += SimStep
		return Unix(SimNow/1e9, SimNow%1e9)
	}
`})
	// the environment the library asks for
	patch(goroot, "syscall/env_unix.go", [2]string{`(?m)^(func Getenv\(key string\) \(value string, found bool\) \{)$`, `// SimGetenv tells what the simulated environment holds.
var (
	SimGetenv func(key string) (value string, found, simulated bool)
	SimPid    func() int
)

$1
	if SimGetenv != nil {
		if v, found, simulated := SimGetenv(key); simulated {
			return v, found
		}
	}`})
	patch(goroot, "os/exec.go", [2]string{`(?m)^func Getpid\(\) int \{ return syscall.Getpid\(\) \}$`, `func Getpid() int {
	if syscall.SimPid != nil {
		if p := syscall.SimPid(); p != 0 {
			return p
		}
	}
	return syscall.Getpid()
}`})
	// timers the simulator made know no runtime timer
	patch(goroot, "time/sleep.go",
		[2]string{`(?m)^func (\(t \*Timer\) Stop\(\) bool) \{\n\tif !t.initTimer \{`, `// SimTimer stops and sets again the timers of the simulator, SimAfterFunc makes one.
var (
	SimTimer     func(t *Timer, d Duration, set bool) bool
	SimAfterFunc func(d Duration, f func()) *Timer
)

func $1 {
	if !t.initTimer {
		if t.C != nil && SimTimer != nil {
			return SimTimer(t, 0, false)
		}`},
		[2]string{`(?m)^(func \(t \*Timer\) Reset\(d Duration\) bool \{)$`, `$1
	if !t.initTimer && t.C != nil && SimTimer != nil {
		return SimTimer(t, d, true)
	}`},
		[2]string{`(?m)^(func AfterFunc\(d Duration, f func\(\)\) \*Timer \{)$`, `$1
	if SimAfterFunc != nil {
		if t := SimAfterFunc(d, f); t != nil {
			return t
		}
	}`})
	patch(goroot, "time/tick.go",
		[2]string{`(?m)^func (\(t \*Ticker\) Stop\(\)) \{\n\tif !t.initTicker \{`, `var SimTicker func(t *Ticker, d Duration)

func $1 {
	if !t.initTicker {
		if t.C != nil && SimTicker != nil {
			SimTicker(t, 0)
		}`},
		[2]string{`(?m)^\tif !t.initTicker \{\n\t\tpanic`, `	if !t.initTicker && t.C != nil && SimTicker != nil {
		SimTicker(t, d)
		return
	}
	if !t.initTicker {
		panic`})
}
