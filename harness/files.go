package main

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/nyaosorg/go-readline-ny/completion"
)

func init() { modes["files"] = runFiles }

type fileEntry struct {
	Path [][]int `json:"path"`
	Kind string  `json:"kind"`
	To   [][]int `json:"to"`
}

type filesEvent struct {
	Fail string      `json:"fail"`
	K    string      `json:"k"`
	Tree []fileEntry `json:"tree"`
	Word []int       `json:"word"`
	Full [][]int     `json:"full"`
	Base [][]int     `json:"base"`
}

// The jobs build their trees in a new directory below the scratch directory
// the process was started in.
func runFiles(in, out string, skip int) {
	home, err := os.Getwd()
	if err != nil {
		die(err.Error())
	}
	if !strings.Contains(home, "verif-check-") {
		die("not in a scratch directory: " + home)
	}
	must := func(err error) {
		if err != nil {
			die(err.Error())
		}
	}
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return filepath.Join(home, p)
	}
	smallMode(abs(in), abs(out), skip, 20*time.Second, func(b []byte, t *smallTrace) {
		var j struct {
			Tree  []fileEntry `json:"tree"`
			Words [][]int     `json:"words"`
			Drop  bool        `json:"drop"`
		}
		mustJSON(b, &j)
		root, err := os.MkdirTemp(home, "tree")
		must(err)
		must(os.Chmod(root, 0o755))
		defer func() {
			must(os.Chdir(home))
			must(os.RemoveAll(root))
		}()
		must(os.Mkdir(filepath.Join(root, "t"), 0o755))
		join := func(p [][]int) string { return filepath.Join(append([]string{root}, strs(p)...)...) }
		var closed []string
		for _, e := range j.Tree {
			p := join(e.Path)
			switch e.Kind {
			case "file":
				must(os.WriteFile(p, nil, 0o644))
			case "dir":
				must(os.Mkdir(p, 0o755))
			case "nodir":
				must(os.Mkdir(p, 0o755))
				closed = append(closed, p)
			case "ldir":
				rel, err := filepath.Rel(filepath.Dir(p), join(e.To))
				must(err)
				must(os.Symlink(rel, p))
			case "lfile":
				must(os.Symlink("/dev/null", p))
			case "lnone":
				must(os.Symlink("nowhere/at/all", p))
			default:
				die(e.Kind)
			}
		}
		for _, p := range closed {
			must(os.Chmod(p, 0))
		}
		must(os.Chdir(filepath.Join(root, "t")))
		t.add(filesEvent{K: "tree", Tree: j.Tree, Word: []int{}, Full: [][]int{}, Base: [][]int{}})
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		if j.Drop && os.Getuid() == 0 {
			// root reads everything
			must(syscall.Setfsuid(65534))
			defer syscall.Setfsuid(0)
		}
		list := func(k string, word []int, fields []string) {
			full, base := completion.File{}.List(fields)
			full = append([]string{}, full...)
			for i := range full {
				if strings.HasPrefix(full[i], root) {
					full[i] = "@" + full[i][len(root):]
				}
			}
			t.add(filesEvent{K: k, Tree: []fileEntry{}, Word: word, Full: cpss(full), Base: cpss(base)})
		}
		for _, w := range j.Words {
			word := str(w)
			if strings.HasPrefix(word, "@/") {
				word = root + word[1:]
			}
			list("word", w, []string{"cmd", word})
		}
		list("word", []int{}, []string{""})
		list("none", []int{}, []string{})
	})
}
