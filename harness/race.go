package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/atotto/clipboard"
	rl "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

// Mode "race": reads with resize notifications from another goroutine, without
// any synchronisation by the harness between the two, in a binary built with
// the race detector. Every read is made twice, with and without resizing.

func init() { modes["race"] = runRace }

type raceJob struct {
	ID    string `json:"id"`
	Cfg   Cfg    `json:"cfg"`
	Reads []struct {
		Def  []int   `json:"def"`
		Keys [][]int `json:"keys"`
	} `json:"reads"`
	Widths []int `json:"widths"`
	Seed   int64 `json:"seed"`
}

type raceEvent struct {
	Fail  string `json:"fail"`
	Res   []int  `json:"res"`
	Err   string `json:"err"`
	Ref   []int  `json:"ref"`
	RErr  string `json:"rerr"`
	Races int    `json:"races"`
	Msg   string `json:"msg"`
}

type raceTty struct {
	keys   []string
	widths []int
	rnd    *rand.Rand
	slow   bool
	stop   chan struct{}
	done   chan struct{}
	f      func(int)
}

func (t *raceTty) Open(f func(int)) error {
	t.f = f
	if t.widths == nil {
		return nil
	}
	t.stop, t.done = make(chan struct{}), make(chan struct{})
	widths := t.widths
	rnd := rand.New(rand.NewSource(t.rnd.Int63()))
	stop, done := t.stop, t.done
	go func() {
		defer close(done)
		defer noteCrash()
		for n := 0; ; n++ {
			select {
			case <-stop:
				return
			default:
			}
			f(widths[n%len(widths)])
			time.Sleep(time.Duration(rnd.Intn(120)) * time.Microsecond)
		}
	}()
	time.Sleep(time.Duration(t.rnd.Intn(200)) * time.Microsecond)
	return nil
}

func (t *raceTty) GetKey() (string, error) {
	if t.widths != nil {
		time.Sleep(time.Duration(t.rnd.Intn(100)) * time.Microsecond)
	}
	if len(t.keys) == 0 {
		return "", io.ErrUnexpectedEOF
	}
	k := t.keys[0]
	t.keys = t.keys[1:]
	return k, nil
}

func (t *raceTty) Size() (int, int, error) { return 40, 12, nil }

func (t *raceTty) Close() error {
	if t.stop != nil {
		close(t.stop)
		<-t.done
	}
	return nil
}

var crashed atomic.Value

func noteCrash() {
	if p := recover(); p != nil {
		crashed.Store(fmt.Sprint(p) + whereIn(string(debug.Stack())))
	}
}

// sumColoring is shared by the painting goroutines like any user's object.
type sumColoring struct{ sum int }

func (c *sumColoring) Init() rl.ColorSequence {
	c.sum = 0
	return rl.SGR2(39, 49)
}

func (c *sumColoring) Next(r rune) rl.ColorSequence {
	c.sum = (c.sum + int(r)) % 6
	return rl.SGR1(31 + c.sum)
}

func (j *raceJob) read(widths []int) (res []string, errs []string) {
	rnd := rand.New(rand.NewSource(j.Seed))
	h := simplehistory.New()
	for _, s := range j.Cfg.Hist {
		h.Add(str(s))
	}
	clipboard.Text = str(j.Cfg.Clip)
	clipboard.FailRead, clipboard.FailWrite = false, false
	tty := &raceTty{widths: widths, rnd: rnd}
	ed := &rl.Editor{Writer: io.Discard, Tty: tty, History: h, HistoryCycling: j.Cfg.Cycling}
	p := str(j.Cfg.Prompt)
	ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, p) }
	if j.Cfg.Predict != "off" {
		ed.PredictColor = rl.PredictColorBlueItalic
	}
	if j.Cfg.Color != "none" {
		ed.Coloring = &sumColoring{}
	}
	if j.Cfg.Comp.On {
		ed.BindKey("\t", completion.CmdCompletionOrList{Completion: &staticComp{cfg: j.Cfg.Comp, hook: func() {}}})
	}
	ed.BindKey("\x0F", rl.CmdRepaintOnNewline)
	for _, rd := range j.Reads {
		ed.Default = str(rd.Def)
		tty.keys = strs(rd.Keys)
		s, err := ed.ReadLine(context.Background())
		res = append(res, s)
		errs = append(errs, errName(err))
		if widths != nil { // a late notification, concurrent with the next read
			go func(f func(int)) {
				defer noteCrash()
				f(widths[0])
			}(tty.f)
		}
	}
	return
}

// reports returns the data races between accesses of the editor reported since
// the offset.
func reports(path string, from int) (n int, first string, size int) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) <= from {
		return 0, "", from
	}
	for _, r := range strings.Split(string(b[from:]), "==================") {
		if !strings.Contains(r, "WARNING: DATA RACE") {
			continue
		}
		acc := strings.Split(r, "\n\n")
		if len(acc) < 2 || !strings.Contains(acc[0], "nyaosorg/go-readline-ny") || !strings.Contains(acc[1], "nyaosorg/go-readline-ny") {
			continue
		}
		if n == 0 {
			first = strings.TrimSpace(acc[0] + "\n" + acc[1])
		}
		n++
	}
	return n, first, len(b)
}

func runRace(in, out string, skip int) {
	if os.Getenv("GORACE") == "" {
		self, err := os.Executable()
		if err != nil {
			die(err.Error())
		}
		log, _ := filepath.Abs(out + ".race")
		env := append(os.Environ(), "GORACE=log_path="+log+" halt_on_error=0 exitcode=0 history_size=5")
		die(syscall.Exec(self, os.Args, env).Error())
	}
	log, _ := filepath.Abs(out + ".race." + strconv.Itoa(os.Getpid()))
	size := 0
	smallMode(in, out, skip, 30*time.Second, func(b []byte, t *smallTrace) {
		var j raceJob
		mustJSON(b, &j)
		ref, rerr := j.read(nil)
		res, errs := j.read(j.Widths)
		var n int
		var msg string
		n, msg, size = reports(log, size)
		if c := crashed.Load(); c != nil {
			t.add(failed{"panic", c.(string)})
			return
		}
		for i := range ref {
			t.add(raceEvent{"", cps(res[i]), errs[i], cps(ref[i]), rerr[i], n, msg})
		}
	})
}
