package main

import (
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The C binding (rawpanel-lib-c) is a cgo program of its own module. For checks that go through it, its current
// source is rewritten into an ordinary package zzverif/zzcbind: the pseudo package C becomes zzverif/zzc (C.CBytes
// copies a byte slice, C.CString a string), unsafe.Pointer becomes C.Pointer (that byte slice), and the processor
// module, which the library does not require, a stub. Bodies stay as they are. Where the source uses more of cgo than
// that, the package says Available = false and the checks skip the binding.

const cbindDir = "zzcbind"

var cNames = map[string]string{"char": "Char", "CBytes": "CBytes", "CString": "CString", "int": "Int", "uint": "Uint", "GoString": "GoString", "free": "Free"}

func cbindFiles() (map[string]string, error) {
	out := map[string]string{}
	ds, err := cbindSources()
	if err != nil || os.Getenv("VENGINE_NOCBIND") != "" {
		if err != nil {
			fmt.Fprintf(os.Stderr, "note: C binding left out: %v\n", err)
		}
		ds = map[string]string{"none.go": "package zzcbind\n\nimport C \"" + modPath + "/zzverif/zzc\"\n\nconst Available = false\n\n" +
			"func RawPanelASCIIstringToInboundMessage(ascii string, state []byte) (C.Pointer, int, C.Pointer, int) {\n\treturn nil, 0, nil, 0\n}\n\n" +
			"func OutboundMessageToRawPanelASCIIstring(bytes []byte) *C.Char { return nil }\n"}
	}
	var names []string
	h := sha256.New()
	for n := range ds {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(h, "%s\n%s\n", n, ds[n])
	}
	dir := filepath.Join(verifDir(), "evidence", "gen", fmt.Sprintf("%x", h.Sum(nil)[:8]))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	for _, n := range names {
		f := filepath.Join(dir, n)
		t, err := os.CreateTemp(dir, "tmp-")
		if err != nil {
			return nil, err
		}
		t.WriteString(ds[n])
		if err := t.Close(); err != nil {
			return nil, err
		}
		if err := os.Rename(t.Name(), f); err != nil {
			return nil, err
		}
		out[filepath.Join(repoDir(), "zzverif", cbindDir, n)] = f
	}
	return out, nil
}

func cbindSources() (map[string]string, error) {
	src := filepath.Join(repoDir(), "rawpanel-lib-c")
	es, err := os.ReadDir(src)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	need := map[string]int{"RawPanelASCIIstringToInboundMessage": 2, "OutboundMessageToRawPanelASCIIstring": 1}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return nil, err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, e.Name(), b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		type edit struct {
			from, to int
			s        string
		}
		var eds []edit
		var bad error
		at := func(n ast.Node, s string) {
			eds = append(eds, edit{fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset, s})
		}
		at(f.Name, cbindDir)
		hasC := false
		for _, im := range f.Imports {
			switch im.Path.Value {
			case `"C"`:
				hasC = true
				at(im, `C "`+modPath+`/zzverif/zzc"`)
			case `"unsafe"`:
				at(im, "")
			case `"github.com/SKAARHOJ/rawpanel-processors"`:
				at(im.Path, `"`+modPath+`/zzverif/zzproc"`)
			}
		}
		if f.Doc != nil && strings.Contains(f.Doc.Text(), "#include") {
			bad = fmt.Errorf("C preamble")
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && g.Doc != nil {
				bad = fmt.Errorf("C preamble")
			}
			if g, ok := d.(*ast.FuncDecl); ok && g.Recv == nil {
				if n, ok := need[g.Name.Name]; ok && g.Type.Params.NumFields() == n {
					delete(need, g.Name.Name)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.Ident)
			if !ok {
				return true
			}
			switch {
			case x.Name == "C" && hasC:
				if r, ok := cNames[s.Sel.Name]; ok {
					at(s.Sel, r)
				} else {
					bad = fmt.Errorf("C.%s", s.Sel.Name)
				}
			case x.Name == "unsafe" && s.Sel.Name == "Pointer" && hasC:
				at(s, "C.Pointer")
			case x.Name == "unsafe":
				bad = fmt.Errorf("unsafe.%s", s.Sel.Name)
			}
			return true
		})
		if bad != nil {
			return nil, bad
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
		s := string(b)
		for _, e := range eds {
			s = s[:e.from] + e.s + s[e.to:]
		}
		out[e.Name()] = s
	}
	if len(need) > 0 {
		return nil, fmt.Errorf("exported functions changed")
	}
	out["zz_available.go"] = "package zzcbind\n\nconst Available = true\n"
	return out, nil
}
