package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/atotto/clipboard"
	rl "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/completion"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

func init() { modes["edit"] = runEdit }

func mustJSON(b []byte, v any) {
	if err := json.Unmarshal(b, v); err != nil {
		die(err.Error() + ": " + string(b))
	}
}

type CompCfg struct {
	Cands   [][]int `json:"cands"`
	Bases   [][]int `json:"bases"`
	Enc     []int   `json:"enc"`
	Del     []int   `json:"del"`
	Postfix []int   `json:"post"`
	List    bool    `json:"list"`
	On      bool    `json:"on"`
}

type Cfg struct {
	Env     string  `json:"env"`
	W       int     `json:"w"`
	H       int     `json:"h"`
	NilP    bool    `json:"nilp"`
	Prompt  []int   `json:"prompt"`
	Hist    [][]int `json:"hist"`
	Cycling bool    `json:"cyc"`
	Predict string  `json:"pred"` // off, hist, custom
	Color   string  `json:"color"`
	LF      bool    `json:"lf"`
	Clip    []int   `json:"clip"`
	Comp    CompCfg `json:"comp"`
	Screen  bool    `json:"scr"` // log the whole screen
	Zwj     string  `json:"zw"`
	Ov      []Ov    `json:"ov"`     // character widths set with SetCharWidth
	NoSurr  bool    `json:"nosurr"` // EnableSurrogatePair(false)
	Delims  []int   `json:"delims"` // quotation marks of words
	Phys    int     `json:"phys"`   // columns the terminal really has; notifications come from a goroutine
}

type Ov struct {
	CP int `json:"cp"`
	W  int `json:"w"`
}

var surrAtStart = rl.IsSurrogatePairEnabled()

// tell tells the package about the terminal; the result undoes that (but for
// the width of joined pairs, whose jobs have a process of their own).
func (c *Cfg) tell() func() {
	if c.Ov == nil {
		c.Ov = []Ov{}
	}
	for _, o := range c.Ov {
		seenRunes[rune(o.CP)] = true
		rl.SetCharWidth(rune(o.CP), o.W)
		widthOverride[rune(o.CP)] = o.W
	}
	if c.Delims == nil {
		c.Delims = []int{34, 39}
	}
	rl.Delimiters = str(c.Delims)
	if c.NoSurr {
		rl.EnableSurrogatePair(false)
	}
	if c.Zwj == "sum" {
		rl.SetZWJSWidthGetter(func(w1, w2 int) int { return w1 + w2 })
		zwjCols = 0
	}
	return func() {
		rl.EnableSurrogatePair(surrAtStart)
		if len(c.Ov) > 0 {
			rl.ResetCharWidth()
			widthOverride = map[rune]int{}
		}
	}
}

type Item struct {
	K    string `json:"k"`
	S    []int  `json:"s,omitempty"`
	B    []int  `json:"b,omitempty"` // raw bytes of a key
	W    int    `json:"w,omitempty"`
	Cur  *int   `json:"cur,omitempty"`
	FR   bool   `json:"fr,omitempty"`
	FW   bool   `json:"fw,omitempty"`
	Fail string `json:"fail,omitempty"` // open, size
	N    int    `json:"n,omitempty"`    // repetitions of a key
	Rz   []Fire `json:"rz,omitempty"`
	Nest bool   `json:"nest,omitempty"` // a nested prompt is open after the key
	Cs   []Call `json:"cs,omitempty"`   // what a command of the program calls
	RC   int    `json:"rc,omitempty"`   // what it returns
}

// Call is a call of a function of the buffer by a command of the program.
type Call struct {
	Op string `json:"op"`
	P  int    `json:"p"`
	N  int    `json:"n"`
	S  []int  `json:"s"`
}

// Ret is what it answers.
type Ret struct {
	R []int `json:"r"`
	T []int `json:"t"`
}

type Job struct {
	ID     string `json:"id"`
	Cfg    Cfg    `json:"cfg"`
	Script []Item `json:"script"`
}

// Event is one logged step: what was done and what was then observed.
type Event struct {
	K    string `json:"k"`
	S    []int  `json:"s"`
	W    int    `json:"w"`
	Cur0 int    `json:"cur0"`
	FR   bool   `json:"fr"`
	FW   bool   `json:"fw"`
	Fail string `json:"fail"`

	Cells [][]int   `json:"cells"`
	Str   []int     `json:"str"`
	Cur   int       `json:"cur"`
	Vs    int       `json:"vs"`
	Clip  []int     `json:"clip"`
	ClipW int       `json:"clipw"`
	Hist  [][]int   `json:"hist"`
	Row   [][]int   `json:"row"`
	Col   int       `json:"col"`
	Wrap  bool      `json:"wrap"`
	DY    int       `json:"dy"`
	Oth   int       `json:"oth"`
	Vis   bool      `json:"vis"`
	Ops   []string  `json:"ops"`
	Runs  [][]int   `json:"runs"`
	Attrs []string  `json:"attrs"`
	Tail  []string  `json:"tail"`
	Flds  [][]int   `json:"flds"`
	NFld  int       `json:"nfld"`
	Scr   [][]int   `json:"scr"`
	End   bool      `json:"end"`
	Res   []int     `json:"res"`
	Err   string    `json:"err"`
	Open  int       `json:"open"`
	Close int       `json:"close"`
	LF    []int     `json:"lf"`
	Left  int       `json:"left"`
	Msg   string    `json:"msg"`
	Fired bool      `json:"fired"` // a resize was notified during the event
	Rw    int       `json:"rw"`    // width notified, which has taken effect
	Pend  []int     `json:"pend"`  // widths notified, which may not have taken effect
	Late  int       `json:"late"`  // bytes written after the read had returned
	Cs    []Call    `json:"cs"`
	Rets  []Ret     `json:"rets"`
	RC    int       `json:"rc"`
	hist  [][]int   `json:"-"`
	at    time.Time `json:"-"`
}

type Trace struct {
	ID  string   `json:"id"`
	Cfg Cfg      `json:"cfg"`
	Ev  []*Event `json:"ev"`
}

var errTty = errors.New("scripted terminal error")
var errCut = errors.New("script is over")

const probeKey = "\x1B[verif-probe~"
const callKey = "\x1B[verif-call~"

type recColoring struct {
	kind string
	sum  int
	mark bool
	runs [][]int
	vim  coloring.VimBatch
	hook func()
}

// colours by a running sum of the code points; the cursor marker switches the
// background of everything after it.
func (c *recColoring) Init() rl.ColorSequence {
	c.runs = append(c.runs, []int{})
	c.sum = 0
	c.mark = false
	if c.kind == "vim" {
		return c.vim.Init()
	}
	if c.kind == "def" {
		return defColor
	}
	return rl.SGR2(39, 49)
}

var defColor = rl.SGR3(32, 22, 49)

func (c *recColoring) Next(r rune) rl.ColorSequence {
	c.hook()
	if n := len(c.runs); n > 0 {
		c.runs[n-1] = append(c.runs[n-1], int(r))
	}
	if c.kind == "vim" {
		return c.vim.Next(r)
	}
	if c.kind == "def" {
		return []rl.ColorSequence{defColor, rl.SGR3(31, 22, 44), rl.ColorReset, rl.Magenta}[r%4]
	}
	if r == rl.CursorPositionDummyRune {
		c.mark = true
		return rl.SGR1(0)
	}
	c.sum = (c.sum + int(r)) % 6
	bg := 44
	if c.mark {
		bg = 45
	}
	return rl.SGR3(31+c.sum, 22, bg)
}

type staticComp struct {
	cfg  CompCfg
	flds [][]int
	n    int
	hook func()
}

func (s *staticComp) Delimiters() string { return str(s.cfg.Del) }
func (s *staticComp) Enclosures() string { return str(s.cfg.Enc) }
func (s *staticComp) List(f []string) ([]string, []string) {
	s.hook()
	s.flds = cpss(f)
	s.n++
	var b []string
	if len(s.cfg.Bases) > 0 {
		b = strs(s.cfg.Bases)
	}
	return strs(s.cfg.Cands), b
}

type editRun struct {
	job    Job
	tr     Trace
	ed     *rl.Editor
	term   *Term
	hist   *simplehistory.Container
	buf    *rl.Buffer
	col    *recColoring
	comp   *staticComp
	pos    int
	rep    int
	cur    *Event // event in progress
	probed bool
	open   int
	close  int
	lfs    []int
	onSize func(int)
	size   int
	rows   []string
	lastY  int
	beat   atomic.Int64
	failed string
	ntf    notifier
	nest   bool
}

// Open, GetKey, Size and Close make editRun the scripted terminal.
func (r *editRun) Open(f func(int)) error {
	r.open++
	if r.failed == "open" {
		return errTty
	}
	r.onSize = f
	r.at("open")
	return nil
}

func (r *editRun) Size() (int, int, error) {
	if r.failed == "size" {
		return 0, 0, errTty
	}
	w := r.size
	r.at("size")
	return w, r.term.H, nil
}

func (r *editRun) Close() error {
	r.close++
	r.at("close")
	if r.ntf.on && !r.ntf.wait(settleLimit) { // as a back end that waits for its watcher
		r.tr.Ev = append(r.tr.Ev, failEvent("hang", "the watcher cannot be stopped", &Event{K: "resize"}))
		panic(abortRun{})
	}
	return nil
}

func (r *editRun) observe(e *Event) {
	if r.buf != nil {
		e.Cells = make([][]int, 0, len(r.buf.Buffer))
		for _, c := range r.buf.Buffer {
			e.Cells = append(e.Cells, cps(c.String()))
		}
		e.Str = cps(r.buf.String())
		e.Cur = r.buf.Cursor
		e.Vs = r.buf.ViewStart
	}
	r.observeRest(e)
}

func (r *editRun) observeRest(e *Event) {
	if e.Cells == nil {
		e.Cells = [][]int{}
	}
	if e.Str == nil {
		e.Str = []int{}
	}
	r.term.mu.Lock()
	defer r.term.mu.Unlock()
	e.Clip = cps(clipboard.Text)
	e.ClipW = clipboard.Writes
	clipboard.Writes = 0
	e.Hist = [][]int{}
	for i := 0; i < r.hist.Len(); i++ {
		e.Hist = append(e.Hist, cps(r.hist.At(i)))
	}
	y := r.term.y
	if e.End && y > 0 {
		y--
	}
	e.Row = r.term.rowCols(y)
	e.Col = r.term.x
	e.Wrap = r.term.wrap
	e.DY = r.term.y - r.lastY
	e.Vis = r.term.Visible
	rows := r.term.snapshotRows()
	for i := range rows {
		if i != r.lastY && rows[i] != r.rows[i] {
			e.Oth++
		}
	}
	r.rows = rows
	r.lastY = r.term.y
	e.Ops = []string{}
	for k := range r.term.Ops {
		e.Ops = append(e.Ops, k)
	}
	sort.Strings(e.Ops)
	r.term.Ops = map[string]bool{}
	e.Runs = [][]int{}
	e.Attrs = []string{}
	e.Tail = []string{}
	if r.col != nil {
		if n := len(r.col.runs); n > 3 {
			r.col.runs = r.col.runs[n-3:]
		}
		e.Runs = append(e.Runs, r.col.runs...)
		r.col.runs = nil
	}
	if r.col != nil || r.job.Cfg.Color == "mono" {
		e.Attrs = r.term.rowAttrs(y, len(e.Row))
		e.Tail = []string{attrString(r.term.attr)}
	}
	e.Flds = [][]int{}
	if r.comp != nil {
		if r.comp.flds != nil {
			e.Flds = r.comp.flds
		}
		e.NFld = r.comp.n
		r.comp.n = 0
		r.comp.flds = nil
	}
	e.Scr = [][]int{}
	if r.job.Cfg.Screen {
		for y := range r.term.grid {
			line := []int{}
			for _, c := range r.term.rowCols(y) {
				for _, v := range c {
					if v >= 0 {
						line = append(line, v)
					}
				}
			}
			e.Scr = append(e.Scr, line)
		}
	}
	if e.S == nil {
		e.S = []int{}
	}
	if e.Res == nil {
		e.Res = []int{}
	}
	if e.Pend == nil {
		e.Pend = []int{}
	}
	if e.Cs == nil {
		e.Cs = []Call{}
	}
	if e.Rets == nil {
		e.Rets = []Ret{}
	}
	e.Open, e.Close = r.open, r.close
	e.LF = append([]int{}, r.lfs...)
	r.tr.Ev = append(r.tr.Ev, e)
}

func (r *editRun) finishEvent() {
	if r.cur != nil {
		if r.nest {
			r.note(r.cur)
		} else if r.ntf.on {
			r.settle(r.cur)
		}
		r.observe(r.cur)
		r.cur = nil
	}
}

func (r *editRun) GetKey() (string, error) {
	r.beat.Add(1)
	if !r.probed {
		r.probed = true
		return probeKey, nil
	}
	r.finishEvent()
	r.ntf.arm(nil)
	for {
		if r.pos >= len(r.job.Script) {
			return "", errCut
		}
		it := r.job.Script[r.pos]
		if it.K == "start" || it.K == "hadd" {
			// the script wants the next read: abandon this one
			return "", errCut
		}
		r.pos++
		switch it.K {
		case "key":
			k := str(it.S)
			ev := it.S
			if it.B != nil {
				b := make([]byte, len(it.B))
				for i, v := range it.B {
					b[i] = byte(v)
				}
				k = string(b)
				ev = cps(k)
			}
			r.cur = &Event{K: "key", S: ev}
			r.nest = it.Nest
			r.ntf.arm(it.Rz)
			r.at("got")
			return k, nil
		case "call":
			r.cur = &Event{K: "call", Cs: it.Cs, RC: it.RC}
			r.nest = false
			return callKey, nil
		case "err":
			r.cur = &Event{K: "err"}
			r.nest = false
			r.ntf.arm(it.Rz)
			return "", errTty
		case "rnest":
			e := &Event{K: "rnest", W: it.W}
			r.fire(it.W)
			r.note(e)
			r.observe(e)
		case "resize":
			if r.ntf.on {
				e := &Event{K: "resize", W: it.W}
				was := r.term.total()
				r.fire(it.W)
				for k := 0; k < 300 && r.ntf.wait(settleLimit) && r.term.total() == was; k++ {
					time.Sleep(time.Millisecond)
				}
				r.settle(e)
				r.observe(e)
				continue
			}
			e := &Event{K: "resize", W: it.W}
			r.size = it.W
			r.term.resize(it.W)
			if r.lastY < len(r.rows) {
				r.rows = r.term.snapshotRows()
			}
			done := make(chan any, 1)
			go func() {
				defer func() { done <- recover() }()
				r.onSize(it.W)
			}()
			select {
			case p := <-done:
				if p != nil {
					r.tr.Ev = append(r.tr.Ev, failEvent("panic", fmt.Sprint(p), e))
					panic(abortRun{})
				}
			case <-time.After(10 * time.Second):
				r.tr.Ev = append(r.tr.Ev, failEvent("hang", "resize callback does not return", e))
				panic(abortRun{})
			}
			r.observe(e)
		case "clip":
			clipboard.Text = str(it.S)
			clipboard.FailRead, clipboard.FailWrite = it.FR, it.FW
			r.observe(&Event{K: "clip", S: it.S, FR: it.FR, FW: it.FW})
		default:
			die("bad script item " + it.K)
		}
	}
}

type abortRun struct{}

func failEvent(kind, msg string, e *Event) *Event {
	f := &Event{K: kind, Msg: msg}
	if e != nil {
		f.S = e.S
		f.Fail = e.K
	}
	f.Cells, f.Str, f.Clip, f.Hist, f.Row = [][]int{}, []int{}, []int{}, [][]int{}, [][]int{}
	f.Ops, f.Runs, f.Attrs, f.Tail, f.Flds, f.Scr = []string{}, [][]int{}, []string{}, []string{}, [][]int{}, [][]int{}
	f.LF, f.Res, f.Pend, f.Cs, f.Rets = []int{}, []int{}, []int{}, []Call{}, []Ret{}
	if f.S == nil {
		f.S = []int{}
	}
	return f
}

func (r *editRun) lineFeed(rc rl.Result, w io.Writer) (int, error) {
	r.lfs = append(r.lfs, int(rc))
	r.at("lf")
	return io.WriteString(w, "\n")
}

func (r *editRun) customPredict(B *rl.Buffer) string {
	r.at("pred")
	t := B.String()
	if strings.HasSuffix(t, "?") {
		return ""
	}
	n := len([]rune(t))
	return strings.Repeat("x", n%4) + "あy"
}

func (r *editRun) setup() {
	c := r.job.Cfg
	if c.H == 0 {
		c.H = 12
	}
	r.tr = Trace{ID: r.job.ID, Cfg: r.job.Cfg, Ev: []*Event{}}
	r.term = newTerm(c.W, c.H)
	r.size = c.W
	if c.Phys > 0 {
		r.term = newTerm(c.Phys, c.H)
		r.ntf.on = true
		r.term.onWrite = func() { r.at("write") }
	}
	r.hist = simplehistory.New()
	for _, h := range c.Hist {
		r.hist.Add(str(h))
	}
	clipboard.Text = str(c.Clip)
	clipboard.FailRead, clipboard.FailWrite, clipboard.Writes = false, false, 0
	r.ed = &rl.Editor{
		Writer:         r.term,
		Tty:            r,
		History:        r.hist,
		HistoryCycling: c.Cycling,
	}
	if !c.NilP {
		p := str(c.Prompt)
		r.ed.PromptWriter = func(w io.Writer) (int, error) {
			r.at("prompt")
			return io.WriteString(w, p)
		}
	}
	if c.LF {
		r.ed.LineFeedWriter = r.lineFeed
	}
	switch c.Predict {
	case "hist":
		r.ed.PredictColor = rl.PredictColorBlueItalic
	case "custom":
		r.ed.PredictColor = rl.PredictColorBlueItalic
		r.ed.Predictor = r.customPredict
	}
	if c.Color != "" && c.Color != "none" && c.Color != "mono" {
		r.col = &recColoring{kind: c.Color, hook: func() { r.at("color") }}
		r.ed.Coloring = r.col
	}
	if c.Comp.On {
		r.comp = &staticComp{cfg: c.Comp, hook: func() { r.at("comp") }}
		if c.Comp.List {
			r.ed.BindKey("\t", completion.CmdCompletionOrList{Completion: r.comp, Postfix: str(c.Comp.Postfix)})
		} else {
			r.ed.BindKey("\t", completion.CmdCompletion{Completion: r.comp, Postfix: str(c.Comp.Postfix)})
		}
	}
	r.ed.BindKey("\x0F", rl.CmdRepaintOnNewline)
	if c.Phys > 0 {
		r.ed.History = &noisyHistory{r.hist, r}
		r.ed.BindKey("Q", rl.AnonymousCommand(func(ctx context.Context, B *rl.Buffer) rl.Result {
			r.at("cmd")
			rc := rl.SelfInserter("Q").Call(ctx, B)
			r.at("cmd2")
			return rc
		}))
	}
	r.ed.BindKey(probeKey, rl.AnonymousCommand(func(_ context.Context, B *rl.Buffer) rl.Result {
		r.buf = B
		return rl.CONTINUE
	}))
	r.ed.BindKey(callKey, rl.AnonymousCommand(r.userCommand))
	r.rows = r.term.snapshotRows()
	r.lastY = r.term.y
}

func errName(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, errCut):
		return "cut"
	case errors.Is(err, errTty):
		return "tty"
	case err == rl.CtrlC:
		return "intr"
	case err == io.EOF:
		return "eof"
	}
	return "other:" + err.Error()
}

func (r *editRun) run() {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortRun); ok {
				return
			}
			msg := fmt.Sprint(p)
			st := strings.Split(string(debug.Stack()), "\n")
			for i, l := range st {
				if strings.Contains(l, "/go-readline-ny") && strings.Contains(l, "(") && i+1 < len(st) {
					msg += " | " + strings.TrimSpace(l) + " " + strings.TrimSpace(st[i+1])
					break
				}
			}
			r.tr.Ev = append(r.tr.Ev, failEvent("panic", msg, r.cur))
		}
	}()
	r.setup()
	defer r.ntf.stop()
	for r.pos < len(r.job.Script) {
		it := r.job.Script[r.pos]
		switch it.K {
		case "start":
		case "hadd":
			r.hist.Add(str(it.S))
			r.pos++
			e := &Event{K: "hadd", S: it.S}
			r.observeRest(e)
			continue
		case "clip":
			clipboard.Text = str(it.S)
			clipboard.FailRead, clipboard.FailWrite = it.FR, it.FW
			r.pos++
			r.observeRest(&Event{K: "clip", S: it.S, FR: it.FR, FW: it.FW})
			continue
		default:
			// the read ended before the script: drop the rest of its items
			r.pos++
			continue
		}
		r.pos++
		r.ed.Default = str(it.S)
		if it.Cur != nil {
			r.ed.Cursor = *it.Cur
		}
		if it.W > 0 {
			r.size = it.W
			if !r.ntf.on {
				r.term.resize(it.W)
			}
			r.rows = r.term.snapshotRows()
		}
		if r.term.x != 0 || r.term.wrap {
			// a read that failed leaves the cursor in its row: the next one
			// is started on a fresh row, as a program would do
			r.term.Write([]byte("\r\n"))
			r.rows = r.term.snapshotRows()
		}
		r.open, r.close, r.lfs = 0, 0, nil
		r.probed = false
		r.buf = nil
		r.failed = it.Fail
		r.onSize = nil
		r.nest = false
		r.ntf.arm(it.Rz)
		r.cur = &Event{K: "start", S: it.S, W: r.size, Cur0: r.ed.Cursor, Fail: it.Fail}
		res, err := r.ed.ReadLine(context.Background())
		if errors.Is(err, errCut) {
			continue
		}
		e := r.cur
		r.cur = nil
		if e == nil {
			e = &Event{K: "stray"}
		}
		if r.ntf.on {
			was := r.term.total()
			r.note(e)
			r.at("late")
			r.note(e)
			r.settle(&Event{})
			e.Late = r.term.total() - was
		}
		e.End = true
		e.Res = cps(res)
		e.Err = errName(err)
		if r.ed.Out != nil {
			e.Left = r.ed.Out.Buffered()
		}
		r.observe(e)
	}
}

func runEdit(in, out string, skip int) {
	o := newOutput(out)
	n := 0
	var current atomic.Pointer[editRun]
	var idx atomic.Int64
	go func() {
		var lastRun *editRun
		var lastBeat int64
		since := time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			c := current.Load()
			if c == nil {
				continue
			}
			b := c.beat.Load()
			if c != lastRun || b != lastBeat {
				lastRun, lastBeat, since = c, b, time.Now()
				continue
			}
			if time.Since(since) > 20*time.Second {
				c.tr.Ev = append(c.tr.Ev, failEvent("hang", "no key is read for 20 seconds", c.cur))
				o.put(c.tr)
				o.close()
				writeRunes(out + ".runes")
				fmt.Printf("HANG %d\n", idx.Load())
				os.Exit(3)
			}
		}
	}()
	eachLine(in, func(b []byte) {
		n++
		if n <= skip {
			return
		}
		r := &editRun{}
		mustJSON(b, &r.job)
		idx.Store(int64(n))
		current.Store(r)
		restore := r.job.Cfg.tell()
		r.run()
		restore()
		o.put(r.tr)
		if r.ntf.busy.Load() > 0 { // a goroutine is stuck
			o.close()
			writeRunes(out + ".runes")
			fmt.Printf("HANG %d\n", n)
			os.Exit(3)
		}
	})
	current.Store(nil)
	o.close()
	writeRunes(out + ".runes")
}
