package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	rl "github.com/nyaosorg/go-readline-ny"
)

// Fire is a resize notification to be sent at the n-th time (from 0) the
// editor comes to a point: "open", "size", "prompt", "write", "color", "pred",
// "hist", "comp", "cmd", "cmd2", "got", "lf", "close" or "late".
type Fire struct {
	At string `json:"at"`
	N  int    `json:"n"`
	W  int    `json:"w"`
}

// notifier delivers resize notifications in order from a goroutine of its own,
// as the bundled back ends do.
type notifier struct {
	mu     sync.Mutex
	on     bool
	fires  []Fire
	counts map[string]int
	work   chan func()
	busy   atomic.Int32
	pend   []int // widths notified since the last settling
	failed atomic.Value
}

const (
	fireWindow  = 6 * time.Millisecond // how long the editor is held at the point
	settleLimit = 10 * time.Second
	settleGrace = 1 * time.Millisecond
)

func (n *notifier) arm(fires []Fire) {
	n.mu.Lock()
	n.fires = fires
	n.counts = map[string]int{}
	n.mu.Unlock()
}

// at is called where the editor calls the environment.
func (r *editRun) at(point string) {
	n := &r.ntf
	if !n.on {
		return
	}
	n.mu.Lock()
	c := n.counts[point]
	n.counts[point]++
	var ws []int
	for _, f := range n.fires {
		if f.At == point && f.N == c {
			ws = append(ws, f.W)
		}
	}
	n.mu.Unlock()
	for _, w := range ws {
		r.fire(w)
	}
}

func (r *editRun) fire(w int) {
	n := &r.ntf
	f := r.onSize
	if f == nil {
		return
	}
	n.mu.Lock()
	if n.work == nil {
		n.work = make(chan func(), 100)
		go func(c chan func()) {
			for g := range c {
				g()
			}
		}(n.work)
	}
	n.pend = append(n.pend, w)
	work := n.work
	n.mu.Unlock()
	r.size = w
	n.busy.Add(1)
	work <- func() {
		defer func() {
			if p := recover(); p != nil {
				n.failed.Store(fmt.Sprint(p))
			}
			n.busy.Add(-1)
		}()
		f(w)
	}
	n.wait(fireWindow)
}

func (n *notifier) wait(limit time.Duration) bool {
	end := time.Now().Add(limit)
	for n.busy.Load() > 0 {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

// settle waits until all notifications are delivered.
func (r *editRun) settle(e *Event) {
	n := &r.ntf
	if !n.wait(settleLimit) {
		r.tr.Ev = append(r.tr.Ev, failEvent("hang", "resize callback does not return", &Event{K: "resize"}))
		panic(abortRun{})
	}
	if p := n.failed.Load(); p != nil {
		r.tr.Ev = append(r.tr.Ev, failEvent("panic", p.(string), &Event{K: "resize"}))
		panic(abortRun{})
	}
	time.Sleep(settleGrace)
	n.mu.Lock()
	if k := len(n.pend); k > 0 {
		e.Fired = true
		e.Rw = n.pend[k-1]
	}
	n.pend = nil
	n.mu.Unlock()
}

// note records a notification that need not have taken effect.
func (r *editRun) note(e *Event) {
	n := &r.ntf
	n.mu.Lock()
	e.Fired = len(n.pend) > 0
	e.Pend = append([]int{}, n.pend...)
	n.mu.Unlock()
}

func (n *notifier) stop() {
	n.mu.Lock()
	if n.work != nil {
		close(n.work)
		n.work = nil
	}
	n.mu.Unlock()
}

type noisyHistory struct {
	rl.IHistory
	r *editRun
}

func (h *noisyHistory) Len() int {
	h.r.at("hist")
	return h.IHistory.Len()
}

func (h *noisyHistory) At(i int) string {
	h.r.at("hist")
	return h.IHistory.At(i)
}
