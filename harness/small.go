package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// smallTrace is the log of one job of the modes other than "edit". An event
// with a non-empty "fail" field is the last one of a job that panicked or did
// not end.
type smallTrace struct {
	mu sync.Mutex
	id string
	ev []any
}

func (t *smallTrace) add(e any) {
	t.mu.Lock()
	t.ev = append(t.ev, e)
	t.mu.Unlock()
}

func (t *smallTrace) doc() any {
	t.mu.Lock()
	defer t.mu.Unlock()
	return map[string]any{"id": t.id, "cfg": map[string]string{"env": curEnv.Name}, "ev": append([]any{}, t.ev...)}
}

type failed struct {
	Fail string `json:"fail"`
	Msg  string `json:"msg"`
}

func whereIn(stack string) string {
	st := strings.Split(stack, "\n")
	for i, l := range st {
		if strings.Contains(l, "/go-readline-ny") && strings.Contains(l, "(") && i+1 < len(st) {
			return " | " + strings.TrimSpace(l) + " " + strings.TrimSpace(st[i+1])
		}
	}
	return ""
}

// smallMode runs f on every job; f may not share state between jobs.
func smallMode(in, out string, skip int, limit time.Duration, f func(b []byte, t *smallTrace)) {
	o := newOutput(out)
	n := 0
	real := os.Stdout // a job may put something else in its place
	eachLine(in, func(b []byte) {
		n++
		if n <= skip {
			return
		}
		t := &smallTrace{ev: []any{}}
		var j struct {
			ID string `json:"id"`
		}
		mustJSON(b, &j)
		t.id = j.ID
		done := make(chan struct{})
		b = append([]byte{}, b...)
		go func() {
			defer close(done)
			defer func() {
				if p := recover(); p != nil {
					t.add(failed{"panic", fmt.Sprint(p) + whereIn(string(debug.Stack()))})
				}
			}()
			f(b, t)
		}()
		select {
		case <-done:
			o.put(t.doc())
		case <-time.After(limit):
			t.add(failed{"hang", "no end after " + limit.String()})
			o.put(t.doc())
			o.close()
			writeRunes(out + ".runes")
			fmt.Fprintf(real, "HANG %d\n", n)
			os.Exit(3)
		}
	})
	o.close()
	writeRunes(out + ".runes")
}
