// mkoverlay writes a `go build -overlay` file that turns a few tuning constants of the
// code under test into variables (so that a check can use small files, buffers and
// thresholds) and, on request, overrides the rabbit slot width.  It works on whatever
// file of the package declares the constant; a constant it cannot find is simply not
// settable (VerifSet reports false and the checks fall back to the built-in value).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var rootConsts = map[string]bool{
	"DefaultHPFileSize": true, "StartReapThres": true, "HPFileBufferSize": true,
	"RootCacheSizeLimit": true, "MinKeptTwigs": true,
}

func main() {
	repo, out, keySize := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	must(os.MkdirAll(out, 0755))
	n := 0
	ctx := build.Default
	ctx.BuildTags = []string{"cppbtree"}
	found := map[string]string{}
	// 1. package moeingads: const -> var
	for _, f := range goFiles(repo) {
		if ok, err := ctx.MatchFile(repo, filepath.Base(f)); err != nil || !ok {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			continue // the build will report it
		}
		changed := false
		var decls []ast.Decl
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.CONST {
				decls = append(decls, d)
				continue
			}
			var keep, move []ast.Spec
			plain := true
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					plain = false // iota-style group: leave alone
				}
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if plain && len(vs.Names) == 1 && rootConsts[vs.Names[0].Name] {
					if vs.Type == nil {
						vs.Type = ast.NewIdent("int64")
						if vs.Names[0].Name != "MinKeptTwigs" && vs.Names[0].Name != "StartReapThres" {
							vs.Type = ast.NewIdent("int")
						}
					}
					if id, ok := vs.Type.(*ast.Ident); ok {
						found[vs.Names[0].Name] = id.Name
					}
					move = append(move, s)
				} else {
					keep = append(keep, s)
				}
			}
			if len(move) == 0 {
				decls = append(decls, d)
				continue
			}
			changed = true
			if len(keep) > 0 {
				gd.Specs = keep
				decls = append(decls, gd)
			}
			for _, m := range move {
				m.(*ast.ValueSpec).Doc, m.(*ast.ValueSpec).Comment = nil, nil
				decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{m}})
			}
		}
		if changed {
			af.Decls = decls
			af.Comments = nil // build constraints are not needed: the file was selected
			n++
			replace[f] = write(out, fmt.Sprintf("c%d_%s", n, filepath.Base(f)), fset, af)
		}
	}
	var sb strings.Builder
	sb.WriteString("package moeingads\n\n// VerifSet sets a tuning constant that the overlay turned into a variable.\nfunc VerifSet(name string, v int64) bool {\n\tswitch name {\n")
	var names []string
	for k := range found {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s = %s(v)\n\t\treturn true\n", k, k, found[k])
	}
	sb.WriteString("\t}\n\treturn false\n}\n")
	p := filepath.Join(out, "zz_verif_set.go")
	must(os.WriteFile(p, []byte(sb.String()), 0644))
	replace[filepath.Join(repo, "zz_verif_set.go")] = p
	// 2. package rabbit: KeySize
	rd := filepath.Join(repo, "store/rabbit")
	ksFound := false
	for _, f := range goFiles(rd) {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		changed := false
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.CONST {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, nm := range vs.Names {
					if nm.Name == "KeySize" && i < len(vs.Values) {
						vs.Values[i] = &ast.BasicLit{Kind: token.INT, Value: keySize}
						changed, ksFound = true, true
					}
				}
			}
		}
		if changed && keySize != "8" {
			n++
			replace[f] = write(out, fmt.Sprintf("c%d_%s", n, filepath.Base(f)), fset, af)
		}
	}
	if !ksFound && keySize != "8" {
		fmt.Fprintln(os.Stderr, "mkoverlay: rabbit.KeySize not found")
		os.Exit(3)
	}
	bz, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	must(os.WriteFile(filepath.Join(out, "overlay.json"), bz, 0644))
}

func goFiles(dir string) (res []string) {
	l, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	for _, f := range l {
		if !strings.HasSuffix(f, "_test.go") {
			res = append(res, f)
		}
	}
	return
}

func write(out, name string, fset *token.FileSet, af *ast.File) string {
	var b bytes.Buffer
	must(printer.Fprint(&b, fset, af))
	p := filepath.Join(out, name)
	must(os.WriteFile(p, b.Bytes(), 0644))
	return p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
