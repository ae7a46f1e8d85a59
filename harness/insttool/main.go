// Command insttool makes instrumented copies of the library's source files and
// an overlay that puts them in the place of the originals.
//
//	insttool REPO OUTDIR MODE
//
// Mode rand redirects math/rand and math/rand/v2 to a package whose source of
// bits the harness enumerates. Mode sched redirects sync and go statements to
// a scheduler under the harness's control, and inserts a scheduling point
// before every statement, and redirects channels too. For code that does not build so, there are modes
// that rewrite less: sched-closures takes a go statement's call as it stands,
// and sched-sync inserts no points and leaves channels. Points are put into packages xcf and
// internal, in the modes sched-all and sched-all-closures into all.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const shimPath = "vimagination.zapto.org/limage/zzverif/"

func main() {
	repo, out, mode := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	n := 0
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if b := fi.Name(); p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			fail(err)
		}
		rel, _ := filepath.Rel(repo, p)
		var res []byte
		switch mode {
		case "rand":
			res = rewriteRand(p, src)
		case "sched":
			res = rewriteSched(p, src, strings.HasPrefix(rel, "xcf/") || strings.HasPrefix(rel, "internal/"), false, true)
		case "sched-closures":
			res = rewriteSched(p, src, strings.HasPrefix(rel, "xcf/") || strings.HasPrefix(rel, "internal/"), true, true)
		case "sched-all":
			res = rewriteSched(p, src, true, false, true)
		case "sched-all-closures":
			res = rewriteSched(p, src, true, true, true)
		case "sched-sync":
			res = rewriteSched(p, src, false, true, false)
		default:
			fail(fmt.Errorf("unknown mode %q", mode))
		}
		if res == nil {
			return nil
		}
		n++
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(dst, res, 0o600); err != nil {
			fail(err)
		}
		overlay[p] = dst
		return nil
	})
	data, _ := json.Marshal(overlay)
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), data, 0o600); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

// edit is a replacement of src[from:to].
type edit struct {
	from, to int
	text     string
}

func apply(src []byte, edits []edit) []byte {
	// stable insertion sort by position
	for i := 1; i < len(edits); i++ {
		for j := i; j > 0 && edits[j].from < edits[j-1].from; j-- {
			edits[j], edits[j-1] = edits[j-1], edits[j]
		}
	}
	var out []byte
	at := 0
	for _, e := range edits {
		out = append(out, src[at:e.from]...)
		out = append(out, e.text...)
		at = e.to
	}
	return append(out, src[at:]...)
}

func parse(p string, src []byte) (*token.FileSet, *ast.File) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
	if err != nil {
		fail(err)
	}
	return fs, f
}

func rewriteRand(p string, src []byte) []byte {
	fs, f := parse(p, src)
	var edits []edit
	for _, im := range f.Imports {
		name := map[string]string{`"math/rand"`: "vrand", `"math/rand/v2"`: "vrand2"}[im.Path.Value]
		if name == "" {
			continue
		}
		text := fmt.Sprintf("%q", shimPath+name)
		if im.Name == nil {
			text = "rand " + text
		}
		edits = append(edits, edit{fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset, text})
	}
	if edits == nil {
		return nil
	}
	return apply(src, edits)
}
