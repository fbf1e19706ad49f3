// Command mutate makes small changes to a copy of /repo, one at a time, and runs the
// checks against each, to find what they miss. It never touches /repo.
//
//	go run . -lane 0 -lanes 4 -dir /tmp/mut0 -out /tmp/mut0.txt [-files regexp] [-ops regexp] [-every n -offset i]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

var checks = map[string]string{
	"utils/comparator/comparator.go":     "C01",
	"utils/iterator/iterator.go":         "C15",
	"utils/sync/locker.go":               "C40 C41 C42",
	"utils/visitor/visitor.go":           "C37",
	"ds/rbtree/rbtree.go":                "C02 C03 C43 C09 C37 C39 C04 C05 C06 C08 C40",
	"ds/rbtree/node.go":                  "C02 C03 C43 C09",
	"ds/rbtree/iterator.go":              "C02 C43 C09",
	"ds/map/map.go":                      "C04 C09 C37 C38 C39 C40 C43",
	"ds/map/multimap.go":                 "C05 C09 C37 C38 C39 C40 C43",
	"ds/map/iterator.go":                 "C04 C05 C43 C09",
	"ds/set/set.go":                      "C06 C07 C09 C37 C38 C39 C40 C43",
	"ds/set/multiset.go":                 "C08 C09 C37 C38 C39 C40 C43",
	"ds/set/iterator.go":                 "C06 C08 C43 C09",
	"ds/skiplist/skiplist.go":            "C10 C11 C37 C38 C39 C40",
	"ds/deque/deque.go":                  "C12 C15 C38 C39 C18 C19",
	"ds/deque/segment.go":                "C12 C15 C38 C39",
	"ds/deque/pool.go":                   "C12 C39",
	"ds/deque/iterator.go":               "C15 C12",
	"ds/vector/vector.go":                "C13 C15 C38 C39",
	"ds/vector/iterator.go":              "C15 C13",
	"ds/array/array.go":                  "C14 C15 C38 C39",
	"ds/array/iterator.go":               "C15 C14",
	"ds/slice/slice_wrapper.go":          "C14 C15 C38 C39",
	"ds/slice/iterator.go":               "C15 C14",
	"ds/slice/slice.go":                  "C14",
	"ds/list/bidlist/list.go":            "C16 C37 C38 C39 C18 C43",
	"ds/list/bidlist/iterator.go":        "C43 C16",
	"ds/list/simplelist/simplelist.go":   "C17 C37 C38 C39 C43",
	"ds/list/simplelist/iterator.go":     "C43 C17",
	"ds/queue/queue.go":                  "C18 C38 C39 C41",
	"ds/stack/stack.go":                  "C19 C38 C39 C41",
	"ds/priorityqueue/priority_queue.go": "C20 C38 C39 C41",
	"ds/heap/heap.go":                    "C21 C20",
	"ds/bitmap/bitmap.go":                "C22 C23 C38 C39",
	"ds/bloomfilter/bloom.go":            "C23 C24 C38 C39 C42",
	"ds/hamt/hamt.go":                    "C26 C27 C37 C38 C39 C42",
	"ds/ketama/ketama.go":                "C28 C29 C38 C39 C42",
	"ds/pair/pair.go":                    "C44",
	"ds/container/container.go":          "C18",
	"algorithm/hash/hash.go":             "C25 C24 C29",
	"algorithm/op.go":                    "C36",
	"algorithm/const_op.go":              "C35",
	"algorithm/sort/sort.go":             "C30",
	"algorithm/sort/stable_sort.go":      "C31",
	"algorithm/sort/search.go":           "C32",
	"algorithm/sort/nth_element.go":      "C33",
	"algorithm/sort/next_permutation.go": "C34",
}

type mutant struct {
	file     string
	from, to int
	text     string
	op       string
	line     int
	extra    []mutant // further edits of the same mutant, later in the file
}

func main() {
	lane := flag.Int("lane", 0, "")
	lanes := flag.Int("lanes", 1, "")
	dir := flag.String("dir", "/tmp/mut", "")
	out := flag.String("out", "", "")
	files := flag.String("files", "", "")
	ops := flag.String("ops", "", "")
	every := flag.Int("every", 1, "")
	offset := flag.Int("offset", 0, "with -every: which of them")
	list := flag.Bool("list", false, "")
	flag.Parse()
	var names []string
	for f := range checks {
		if *files == "" || regexp.MustCompile(*files).MatchString(f) {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	var all []mutant
	for _, f := range names {
		for _, m := range mutants(f) {
			if *ops == "" || regexp.MustCompile(*ops).MatchString(m.op) {
				all = append(all, m)
			}
		}
	}
	if *list {
		for _, m := range all {
			fmt.Printf("%s:%d %s -> %q\n", m.file, m.line, m.op, m.text)
		}
		fmt.Println(len(all))
		return
	}
	w, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	must(exec.Command("mkdir", "-p", *dir).Run())
	repo, home := *dir+"/repo", *dir+"/verif"
	must(exec.Command("cp", "-a", "/repo", repo).Run())
	must(exec.Command("cp", "-a", "/verif", home).Run())
	gm := home + "/harness/go.mod"
	b, _ := os.ReadFile(gm)
	must(os.WriteFile(gm, bytes.ReplaceAll(b, []byte("=> /repo"), []byte("=> "+repo)), 0o644))
	ck := home + "/check"
	b, _ = os.ReadFile(ck)
	must(os.WriteFile(ck, bytes.ReplaceAll(b, []byte("GOFLAGS=-mod=readonly"), []byte("GOFLAGS='-mod=readonly -gcflags=verifharness/...=-l'")), 0o755))
	must(os.Rename(home+"/harness/props", home+"/allprops"))
	last := ""
	for i, m := range all {
		if m.file != last {
			last = m.file
			choose(home, strings.Fields(checks[m.file]))
		}
		if i%*every != *offset || (i / *every)%*lanes != *lane {
			continue
		}
		t0 := time.Now()
		path := filepath.Join(repo, m.file)
		src, _ := os.ReadFile(path)
		orig := src
		var ed []byte
		pos := 0
		for _, e := range append([]mutant{m}, m.extra...) {
			ed = append(ed, src[pos:e.from]...)
			ed = append(ed, e.text...)
			pos = e.to
		}
		ed = append(ed, src[pos:]...)
		os.WriteFile(path, ed, 0o644)
		res := judge(repo, home, m)
		os.WriteFile(path, orig, 0o644)
		fmt.Fprintf(w, "%s %s:%d %s `%s` -> `%s` %.1fs\n", res, m.file, m.line, m.op, oneLine(string(orig[m.from:m.to])), oneLine(m.text), time.Since(t0).Seconds())
	}
	fmt.Fprintln(w, "done")
}

// choose leaves only the harness files in place that the given checks need, to build faster.
func choose(home string, ids []string) {
	dir := home + "/harness/props"
	must(exec.Command("rm", "-rf", dir).Run())
	must(os.Mkdir(dir, 0o755))
	all, _ := filepath.Glob(home + "/allprops/*.go")
	text := map[string]string{}
	in := map[string]bool{}
	put := func(f string) {
		if !in[f] {
			in[f] = true
			must(os.WriteFile(filepath.Join(dir, filepath.Base(f)), []byte(text[f]), 0o644))
		}
	}
	for _, f := range all {
		b, _ := os.ReadFile(f)
		text[f] = string(b)
		for _, id := range ids {
			if strings.Contains(text[f], "\""+id+"\"") {
				put(f)
			}
		}
		if strings.Contains(f, "sched_") {
			put(f)
		}
	}
	for {
		c, o := run(home+"/harness", "go", "build", "-gcflags=-e", "./props")
		if c == 0 {
			break
		}
		n := len(in)
		for _, x := range regexp.MustCompile(`(?:undefined: |has no field or method |missing method )(\w+)`).FindAllStringSubmatch(o, -1) {
			re := regexp.MustCompile(`(?m)^(func |type |var |const |\t)(\([^)]*\) )?` + x[1] + `\b`)
			for _, f := range all {
				if re.MatchString(text[f]) {
					put(f)
				}
			}
		}
		if len(in) == n {
			fmt.Println("cannot choose files for", ids, o)
			for _, f := range all {
				put(f)
			}
			break
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func run(dir, name string, args ...string) (int, string) {
	c := exec.Command(name, args...)
	c.Env = append(os.Environ(), "VT_HUNT=1")
	c.Dir = dir
	b, err := c.CombinedOutput()
	if err == nil {
		return 0, string(b)
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), string(b)
	}
	return -1, string(b)
}

func judge(repo, home string, m mutant) string {
	if c, _ := run(repo, "go", "build", "./"+filepath.Dir(m.file)); c != 0 {
		return "nobuild"
	}
	ids := strings.Fields(checks[m.file])
	if strings.HasPrefix(m.op, "lock") { // the concurrency checks first
		for i := range ids {
			if ids[i] >= "C40" && ids[i] <= "C42" {
				ids[0], ids[i] = ids[i], ids[0]
			}
		}
	}
	for _, id := range ids {
		c, o := run(home, "./check", id)
		if c == 1 && strings.Contains(o, "VIOLATION property="+id) {
			return "killed " + id
		}
		if c != 0 {
			os.WriteFile(home+"/err-"+id+".txt", []byte(o), 0o644)
			return "ERROR " + id + " code " + strconv.Itoa(c) + " " + oneLine(o)
		}
	}
	c, _ := run(repo, "go", "test", "-vet=off", "-timeout", "60s", "./...")
	if c != 0 {
		return "SURVIVED(tests fail)"
	}
	return "SURVIVED"
}

func mutants(file string) (out []mutant) {
	path := filepath.Join("/repo", file)
	src, err := os.ReadFile(path)
	must(err)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	must(err)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(op string, from, to token.Pos, text string) {
		out = append(out, mutant{file: file, from: off(from), to: off(to), text: text, op: op, line: fs.Position(from).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	bin := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
		token.EQL: {"!=", "<=", ">="}, token.NEQ: {"==", "<", ">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*", "+"},
		token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|", "&"},
	}
	swaps := map[string]string{"next": "prev", "prev": "next", "left": "right", "right": "left", "head": "tail", "tail": "head",
		"begin": "end", "end": "begin", "front": "back", "back": "front", "Next": "Prev", "Prev": "Next", "first": "last", "last": "first",
		"Front": "Back", "Back": "Front", "PushFront": "PushBack", "PushBack": "PushFront", "PopFront": "PopBack", "PopBack": "PopFront",
		"Lock": "RLock", "RLock": "Lock", "findLowerBoundNode": "findUpperBoundNode", "findUpperBoundNode": "findLowerBoundNode",
		"parent": "left", "First": "Last", "Last": "First", "pushFront": "pushBack", "pushBack": "pushFront", "popFront": "popBack", "popBack": "popFront",
		"red": "black", "black": "red", "RED": "BLACK", "BLACK": "RED", "key": "value", "minNode": "maxNode", "successor": "presuccessor",
		"Insert": "Delete", "leftRotate": "rightRotate", "rightRotate": "leftRotate", "nextIndex": "preIndex", "preIndex": "nextIndex"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range bin[n.Op] {
				add("binop", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add("drop-right", n.Pos(), n.End(), txt(n.X))
				add("drop-left", n.Pos(), n.End(), txt(n.Y))
			}
			if n.Op == token.ADD || n.Op == token.SUB {
				add("drop-right", n.Pos(), n.End(), txt(n.X))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add("int", n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						add("int", n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.IfStmt:
			add("if-not", n.Cond.Pos(), n.Cond.End(), "!("+txt(n.Cond)+")")
			add("if-false", n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")")
			add("if-true", n.Cond.Pos(), n.Cond.End(), "true || ("+txt(n.Cond)+")")
		case *ast.ForStmt:
			if n.Cond != nil {
				add("for-false", n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")")
			}
		case *ast.IncDecStmt:
			t := "--"
			if n.Tok == token.DEC {
				t = "++"
			}
			add("incdec", n.TokPos, n.TokPos+2, t)
		case *ast.AssignStmt:
			switch n.Tok {
			case token.ADD_ASSIGN:
				add("assignop", n.TokPos, n.TokPos+2, "-=")
			case token.SUB_ASSIGN:
				add("assignop", n.TokPos, n.TokPos+2, "+=")
			case token.OR_ASSIGN:
				add("assignop", n.TokPos, n.TokPos+2, "^=")
				add("assignop", n.TokPos, n.TokPos+2, "=")
			case token.AND_ASSIGN, token.XOR_ASSIGN:
				add("assignop", n.TokPos, n.TokPos+2, "|=")
			case token.MUL_ASSIGN, token.QUO_ASSIGN:
				add("assignop", n.TokPos, n.TokPos+2, "=")
			}
		case *ast.BlockStmt:
			stmts(n.List, add)
			for i := 0; i+1 < len(n.List); i++ {
				a, b := n.List[i], n.List[i+1]
				_, la := isLock(a)
				_, lb := isLock(b)
				if la && lb {
					add("lock-none", a.Pos(), b.End(), "")
					if d, ok := b.(*ast.DeferStmt); ok {
						add("lock-short", d.Pos(), d.Call.Pos(), "")
						add("lock-nounlock", b.Pos(), b.End(), "")
					}
				} else if simple(a) && simple(b) {
					add("swap-stmts", a.Pos(), b.End(), txt(b)+"\n"+txt(a))
				}
				if la {
					r := mutant{file: file, from: off(a.Pos()), to: off(a.End()), op: "lock-rlock", line: fs.Position(a.Pos()).Line}
					t := txt(a)
					if strings.Contains(t, ".Lock()") && lb {
						r.text = strings.Replace(t, ".Lock()", ".RLock()", 1)
						r.extra = []mutant{{from: off(b.Pos()), to: off(b.End()), text: strings.Replace(txt(b), ".Unlock()", ".RUnlock()", 1)}}
						out = append(out, r)
					}
				}
			}
		case *ast.CaseClause:
			stmts(n.Body, add)
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				switch txt(r) {
				case "true":
					add("return", r.Pos(), r.End(), "false")
				case "false":
					add("return", r.Pos(), r.End(), "true")
				case "nil":
				default:
					add("return-nil", r.Pos(), r.End(), "nil")
					add("return-0", r.Pos(), r.End(), "0")
				}
			}
		case *ast.SelectorExpr:
			if t, ok := swaps[n.Sel.Name]; ok && t != "RLock" && t != "Lock" {
				add("ident", n.Sel.Pos(), n.Sel.End(), t)
			}
		case *ast.CallExpr:
			if len(n.Args) == 2 {
				add("swap-args", n.Args[0].Pos(), n.Args[1].End(), txt(n.Args[1])+", "+txt(n.Args[0]))
			}
			for _, a := range n.Args {
				if id, ok := a.(*ast.Ident); ok && id.Name != "nil" {
					add("arg+1", a.Pos(), a.End(), id.Name+"+1")
				}
			}
		case *ast.IndexExpr:
			add("index+1", n.Index.Pos(), n.Index.End(), txt(n.Index)+"+1")
			add("index-1", n.Index.Pos(), n.Index.End(), txt(n.Index)+"-1")
		}
		return true
	})
	return out
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return true
	case *ast.IncDecStmt, *ast.ExprStmt:
		return true
	default:
		_ = s
		return false
	}
}

func isLock(s ast.Stmt) (string, bool) {
	var c *ast.CallExpr
	switch s := s.(type) {
	case *ast.ExprStmt:
		c, _ = s.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c = s.Call
	}
	if c == nil {
		return "", false
	}
	if x, ok := c.Fun.(*ast.SelectorExpr); ok {
		switch x.Sel.Name {
		case "Lock", "RLock", "Unlock", "RUnlock":
			return x.Sel.Name, true
		}
	}
	return "", false
}

func stmts(l []ast.Stmt, add func(string, token.Pos, token.Pos, string)) {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt:
			if _, ok := isLock(s); !ok {
				add("delete", s.Pos(), s.End(), "")
			}
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add("delete", s.Pos(), s.End(), "")
			}
		case *ast.BranchStmt, *ast.ReturnStmt:
			if r, ok := s.(*ast.ReturnStmt); !ok || len(r.Results) == 0 {
				add("delete", s.Pos(), s.End(), "")
			}
		case *ast.IfStmt, *ast.ForStmt:
			add("delete-block", s.Pos(), s.End(), "")
		}
	}
}
