// Command verifharness drives go-readline-ny through its public API and
// records what can be observed, for validation against the TLA+ specification
// in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

func die(msg string) {
	fmt.Fprintln(os.Stderr, "harness:", msg)
	os.Exit(2)
}

var seenRunes = map[rune]bool{}

func cps(s string) []int {
	out := []int{}
	for _, r := range s {
		seenRunes[r] = true
		out = append(out, int(r))
	}
	return out
}

func str(c []int) string {
	r := make([]rune, len(c))
	for i, v := range c {
		r[i] = rune(v)
		seenRunes[r[i]] = true
	}
	return string(r)
}

func strs(c [][]int) []string {
	out := make([]string, len(c))
	for i, v := range c {
		out[i] = str(v)
	}
	return out
}

func cpss(s []string) [][]int {
	out := make([][]int, len(s))
	for i, v := range s {
		out[i] = cps(v)
	}
	return out
}

// eachLine calls f with every line of the jobs file.
func eachLine(path string, f func([]byte)) {
	fd, err := os.Open(path)
	if err != nil {
		die(err.Error())
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	if err := sc.Err(); err != nil {
		die(err.Error())
	}
}

type output struct {
	fd *os.File
	w  *bufio.Writer
}

func newOutput(path string) *output {
	fd, err := os.Create(path)
	if err != nil {
		die(err.Error())
	}
	return &output{fd, bufio.NewWriterSize(fd, 1<<20)}
}

func (o *output) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		die(err.Error())
	}
	o.w.Write(b)
	o.w.WriteByte('\n')
}

func (o *output) close() {
	if err := o.w.Flush(); err != nil {
		die(err.Error())
	}
	o.fd.Close()
}

func main() {
	mode := flag.String("mode", "", "what to run")
	in := flag.String("in", "", "jobs file")
	out := flag.String("out", "", "results file")
	env := flag.String("env", "plain", "terminal setting")
	skip := flag.Int("skip", 0, "jobs to skip")
	flag.Parse()
	setupEnv(*env)
	f, ok := modes[*mode]
	if !ok {
		die("unknown mode " + *mode)
	}
	f(*in, *out, *skip)
}

var modes = map[string]func(in, out string, skip int){}
