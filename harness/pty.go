package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/sys/unix"

	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/tty10"
)

func init() {
	modes["pty"] = runPty
	modes["ptychild"] = runPtyChild
}

type ptyItem struct {
	K string `json:"k"` // chunk, size, hup, busy
	B []int  `json:"b"`
	W int    `json:"w"`
}

type ptyJob struct {
	ID      string          `json:"id"`
	Edit    json.RawMessage `json:"edit"`
	Backend string          `json:"backend"`
	Reads   int             `json:"reads"`
	Modes   string          `json:"modes"`
	Script  []ptyItem       `json:"script"`
}

type ptyEvent struct {
	Fail   string          `json:"fail"`
	K      string          `json:"k"`
	Cfg    json.RawMessage `json:"cfg"`
	B      []int           `json:"b"`
	S      []int           `json:"s"`
	Err    string          `json:"err"`
	Same   bool            `json:"same"`
	Gor    int             `json:"gor"`
	W      int             `json:"w"`
	Seen   int             `json:"seen"`
	Left   int             `json:"left"`
	Killed bool            `json:"killed"`
	Status string          `json:"status"`
}

// What the child reports on descriptor 3, one JSON text a line.
type ptyReport struct {
	K    string
	S    string
	Err  string
	Same bool
	Gor  int
	W    int
}

// ---------------------------------------------------------------------------
// The child: reads lines from its controlling terminal.

func runPtyChild(backend, _ string, reads int) {
	signal.Ignore(syscall.SIGHUP)
	rep := json.NewEncoder(os.NewFile(3, "report"))
	goOn := bufio.NewReader(os.NewFile(4, "go"))
	ed := &readline.Editor{PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "> ") }}
	ed.Predictor = func(*readline.Buffer) string { return "" }
	if backend == "tty10" {
		ed.Tty = &tty10.Tty{}
	}
	ed.BindKey("\x18", readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		rep.Encode(ptyReport{K: "width", W: int(b.ViewWidth())})
		return readline.CONTINUE
	}))
	ed.BindKey("\x0F", readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		rep.Encode(ptyReport{K: "busy"})
		goOn.ReadByte()
		return readline.CONTINUE
	}))
	base := 0
	for i := 0; i < reads; i++ {
		before, _ := unix.IoctlGetTermios(0, unix.TCGETS)
		rep.Encode(ptyReport{K: "reading"})
		s, err := ed.ReadLine(context.Background())
		after, _ := unix.IoctlGetTermios(0, unix.TCGETS)
		r := ptyReport{K: "line", S: s, Err: "ENTER", Same: reflect.DeepEqual(before, after)}
		switch {
		case errors.Is(err, readline.CtrlC):
			r.Err = "INTR"
		case errors.Is(err, io.EOF):
			r.Err = "EOF"
		case err != nil:
			r.Err = err.Error()
		}
		// what the read started gets some time to end
		for k := 0; k < 400; k++ {
			r.Gor = runtime.NumGoroutine()
			if r.Gor <= base || (base == 0 && k == 20) {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		base = max(base, r.Gor)
		rep.Encode(r)
		if r.Err != "ENTER" && r.Err != "INTR" && r.Err != "EOF" {
			break
		}
	}
	os.Exit(0)
}

// ---------------------------------------------------------------------------
// The parent: the terminal.

type ptySession struct {
	ptm     *os.File
	pts     *os.File
	lastOut atomic.Int64
	reports chan ptyReport
}

func (p *ptySession) raw() bool {
	t, err := unix.IoctlGetTermios(int(p.pts.Fd()), unix.TCGETS)
	return err == nil && t.Lflag&unix.ICANON == 0 && t.Lflag&unix.ISIG == 0
}

func (p *ptySession) pending() int {
	n, err := unix.IoctlGetInt(int(p.pts.Fd()), unix.TIOCINQ)
	if err != nil {
		return 0
	}
	return n
}

// idle tells whether the child waits for a key: raw mode, all input taken and
// no output for a while.
func (p *ptySession) idle() bool {
	quiet := func() bool {
		return p.raw() && p.pending() == 0 && time.Since(time.Unix(0, p.lastOut.Load())) > 12*time.Millisecond
	}
	if !quiet() {
		return false
	}
	time.Sleep(3 * time.Millisecond)
	return quiet()
}

// withFd leaves the file in non-blocking mode, so that Close interrupts Read.
func withFd(f *os.File, do func(fd int) error) {
	c, err := f.SyscallConn()
	if err == nil {
		var err2 error
		err = c.Control(func(fd uintptr) { err2 = do(int(fd)) })
		if err == nil {
			err = err2
		}
	}
	if err != nil {
		die(err.Error())
	}
}

func openPty(width int) *ptySession {
	ptm, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		die(err.Error())
	}
	n := 0
	withFd(ptm, func(fd int) error {
		if err := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0); err != nil {
			return err
		}
		n, err = unix.IoctlGetInt(fd, unix.TIOCGPTN)
		return err
	})
	p := &ptySession{ptm: ptm, reports: make(chan ptyReport, 1000)}
	p.resize(width)
	p.pts, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		die(err.Error())
	}
	return p
}

func (p *ptySession) resize(w int) {
	withFd(p.ptm, func(fd int) error {
		return unix.IoctlSetWinsize(fd, unix.TIOCSWINSZ, &unix.Winsize{Row: 25, Col: uint16(w)})
	})
}

func (p *ptySession) setModes(modes string) {
	t, err := unix.IoctlGetTermios(int(p.pts.Fd()), unix.TCGETS)
	if err != nil {
		die(err.Error())
	}
	switch modes {
	case "":
		return
	case "noecho":
		t.Lflag &^= unix.ECHO
	case "noisig":
		t.Lflag &^= unix.ISIG | unix.IEXTEN
	case "vmin":
		t.Cc[unix.VMIN], t.Cc[unix.VTIME] = 3, 2
	case "flow":
		t.Iflag |= unix.IXON | unix.IXOFF | unix.INLCR | unix.BRKINT
	case "noopost":
		t.Oflag &^= unix.OPOST
	default:
		die(modes)
	}
	if err := unix.IoctlSetTermios(int(p.pts.Fd()), unix.TCSETS, t); err != nil {
		die(err.Error())
	}
}

const ptyWait = 6 * time.Second

func runPty(in, out string, skip int) {
	smallMode(in, out, skip, 60*time.Second, func(b []byte, tr *smallTrace) {
		var j ptyJob
		mustJSON(b, &j)
		p := openPty(80)
		p.setModes(j.Modes)
		repR, repW, err := os.Pipe()
		if err != nil {
			die(err.Error())
		}
		goR, goW, err := os.Pipe()
		if err != nil {
			die(err.Error())
		}
		self, err := os.Executable()
		if err != nil {
			die(err.Error())
		}
		cmd := exec.Command(self, "-mode", "ptychild", "-in", j.Backend, "-skip", fmt.Sprint(j.Reads), "-env", curEnv.Name)
		cmd.Stdin, cmd.Stdout, cmd.Stderr = p.pts, p.pts, p.pts
		cmd.ExtraFiles = []*os.File{repW, goR}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
		if err := cmd.Start(); err != nil {
			die(err.Error())
		}
		repW.Close()
		goR.Close()
		p.lastOut.Store(time.Now().UnixNano())
		go func() {
			buf := make([]byte, 4096)
			for {
				if _, err := p.ptm.Read(buf); err != nil {
					return
				}
				p.lastOut.Store(time.Now().UnixNano())
			}
		}()
		go func() {
			d := json.NewDecoder(repR)
			for {
				var r ptyReport
				if d.Decode(&r) != nil {
					close(p.reports)
					return
				}
				p.reports <- r
			}
		}()
		blank := func(k string) ptyEvent { return ptyEvent{K: k, Cfg: json.RawMessage("{}"), B: []int{}, S: []int{}} }
		e := blank("cfg")
		e.Cfg = j.Edit
		tr.add(e)

		left, ended, reading := j.Reads, false, false
		width, margin, busy := -1, -1, false
		// take handles the reports that have come; it waits for the first one up to d.
		take := func(d time.Duration) {
			for {
				select {
				case r, ok := <-p.reports:
					if !ok {
						ended = true
						return
					}
					switch r.K {
					case "reading":
						reading = true
					case "width":
						width = r.W
					case "busy":
						busy = true
					case "line":
						reading = false
						left--
						e := blank("line")
						e.S, e.Err, e.Same, e.Gor = cps(r.S), r.Err, r.Same, r.Gor
						tr.add(e)
					}
					d = 0
				case <-time.After(d):
					return
				}
			}
		}
		until := func(limit time.Duration, f func() bool) bool {
			end := time.Now().Add(limit)
			for !f() {
				if ended || time.Now().After(end) {
					return f()
				}
				take(2 * time.Millisecond)
			}
			return true
		}
		send := func(b []int) {
			e := blank("chunk")
			e.B = b
			tr.add(e)
			p.ptm.Write([]byte(byteStr(b)))
		}
		hung := false
		for _, it := range j.Script {
			take(0)
			if !until(ptyWait, func() bool { return ended || (reading && p.idle()) }) || ended {
				break
			}
			switch it.K {
			case "chunk":
				send(it.B)
			case "busy":
				// bytes that arrive while a command runs
				busy = false
				p.ptm.Write([]byte{15})
				if !until(ptyWait, func() bool { return busy }) {
					break
				}
				send(it.B)
				time.Sleep(20 * time.Millisecond)
				goW.Write([]byte{1})
			case "size":
				// ask for the width until it is the new one
				ask := func() {
					width = -1
					if until(time.Second, func() bool { return reading && p.idle() }) {
						p.ptm.Write([]byte{24})
						until(time.Second, func() bool { return width >= 0 })
					}
				}
				if margin < 0 {
					if ask(); width >= 0 {
						margin = 80 - width
					}
				}
				p.resize(it.W)
				seen := -1
				until(4*time.Second, func() bool {
					ask()
					seen = width + margin
					if seen == it.W {
						return true
					}
					time.Sleep(100 * time.Millisecond)
					return false
				})
				e := blank("size")
				e.W, e.Seen = it.W, seen
				tr.add(e)
			case "hup":
				tr.add(blank("hup"))
				p.ptm.Close()
				hung = true
			default:
				die(it.K)
			}
		}
		until(ptyWait, func() bool { return ended || (!hung && left > 0 && p.idle() && reading && drained(p)) })
		e = blank("end")
		var once sync.Once
		kill := func() { once.Do(func() { cmd.Process.Kill() }) }
		if !ended {
			// reads that wait for more input are let go
			take(150 * time.Millisecond)
			if !ended {
				e.Killed = true
				kill()
			}
		}
		err = cmd.Wait()
		repR.Close()
		goW.Close()
		if ended && err != nil {
			e.Status = err.Error()
		}
		e.Left = left
		tr.add(e)
		p.ptm.Close()
		p.pts.Close()
	})
}

func drained(p *ptySession) bool {
	time.Sleep(30 * time.Millisecond)
	return p.idle()
}
