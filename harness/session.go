package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	rl "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

func init() { modes["session"] = runSession }

// sessionOp is what a program does with its editor.
type sessionOp struct {
	Op   string  `json:"op"` // w, out, hist, pred, color, tty, lf, pr, cyc, def, cur: set that field; hadd, keys, init, read
	V    string  `json:"v"`
	S    []int   `json:"s"`
	P    int     `json:"p"`
	Keys [][]int `json:"keys"`
}

type sessionEvent struct {
	Fail     string    `json:"fail"`
	O        sessionOp `json:"o"`
	W        string    `json:"w"`
	Out      string    `json:"out"`
	Hist     string    `json:"hist"`
	Pred     string    `json:"pred"`
	Color    string    `json:"color"`
	Tty      string    `json:"tty"`
	Def      []int     `json:"def"`
	Cur      int       `json:"cur"`
	Cyc      string    `json:"cyc"`
	Lf       string    `json:"lf"`
	Pr       string    `json:"pr"`
	Paint    bool      `json:"paint"` // the colours of predictions are as they were set
	Lfs      []string  `json:"lfs"`   // results the program was asked to end a line for
	Prs      []string  `json:"prs"`   // prompts the program was asked for
	Got      []string  `json:"got"`
	Line     []int     `json:"line"`
	Err      string    `json:"err"`
	Size     []int     `json:"size"`
	Lost     bool      `json:"lost"` // what the program wrote has not arrived
	Coloured bool      `json:"coloured"`
}

type countColoring struct{ n int }

func (c *countColoring) Init() rl.ColorSequence { c.n++; return rl.ColorReset }
func (c *countColoring) Next(rune) rl.ColorSequence {
	c.n++
	return rl.ColorReset
}

func runSession(in, out string, skip int) {
	// The standard output of the editor is a file of this process.
	name := filepath.Join(filepath.Dir(out), filepath.Base(out)+".stdout")
	std, err := os.Create(name)
	if err != nil {
		die(err.Error())
	}
	defer os.Remove(name)
	real := os.Stdout
	smallMode(in, out, skip, 20*time.Second, func(b []byte, t *smallTrace) {
		os.Stdout = std
		defer func() { os.Stdout = real }()
		sessionJob(b, t, std)
	})
}

func sessionJob(b []byte, t *smallTrace, std *os.File) {
	var j struct {
		Script []sessionOp `json:"script"`
	}
	mustJSON(b, &j)
	A, B := &bytes.Buffer{}, &bytes.Buffer{}
	sinks := map[string]*bytes.Buffer{"A": A, "B": B}
	bufA := bufio.NewWriter(A)
	outs := map[string]*bufio.Writer{"A": bufio.NewWriter(A), "B": bufio.NewWriter(B), "bufA": bufA}
	writers := map[string]io.Writer{"A": A, "B": B, "bufA": bufA, "std": std}
	hist := simplehistory.New()
	pilot := &auto.Pilot{}
	color := &countColoring{}
	predicted := 0
	ed := &rl.Editor{PredictColor: rl.PredictColorBlueItalic}
	pred, lf, pr := "nil", "nil", "nil"
	said := ""
	var lfs, prs []string
	for n, o := range j.Script {
		e := &sessionEvent{O: o, Got: []string{}, Line: []int{}, Size: []int{}, Lfs: []string{}, Prs: []string{}, Err: "nil"}
		if e.O.S == nil {
			e.O.S = []int{}
		}
		if e.O.Keys == nil {
			e.O.Keys = [][]int{}
		}
		stdBefore, _ := std.Seek(0, io.SeekEnd)
		switch o.Op {
		case "w":
			ed.Writer = writers[o.V]
		case "out":
			if ed.Out != nil {
				ed.Out.Flush()
				said = ""
			}
			ed.Out = outs[o.V]
		case "hist":
			ed.History = nil
			if o.V == "H" {
				ed.History = hist
			}
		case "pred":
			ed.Predictor, pred = nil, "nil"
			if o.V == "P" {
				pred = "P"
				ed.Predictor = func(B *rl.Buffer) string {
					predicted++
					t := B.String()
					if strings.HasSuffix(t, "?") {
						return ""
					}
					return strings.Repeat("x", len([]rune(t))%4) + "あy"
				}
			}
		case "color":
			ed.Coloring = nil
			if o.V == "K" {
				ed.Coloring = color
			}
		case "tty":
			ed.Tty = nil
			if o.V == "pilot" {
				ed.Tty = pilot
			}
		case "lf":
			ed.LineFeedWriter, lf = nil, o.V
			if o.V != "nil" {
				ed.LineFeedWriter = func(rc rl.Result, w io.Writer) (int, error) {
					lfs = append(lfs, map[rl.Result]string{rl.ENTER: "ENTER", rl.ABORT: "EOF", rl.INTR: "INTR"}[rc])
					return fmt.Fprintln(w)
				}
			}
		case "pr":
			ed.PromptWriter, pr = nil, o.V
			if o.V != "nil" {
				ed.PromptWriter = func(w io.Writer) (int, error) {
					prs = append(prs, o.V)
					return fmt.Fprint(w, o.V)
				}
			}
		case "cyc":
			ed.HistoryCycling = o.V == "on"
		case "def":
			ed.Default = str(o.S)
		case "cur":
			ed.Cursor = o.P
		case "hadd":
			hist.Add(str(o.S))
		case "keys":
			for _, k := range o.Keys {
				pilot.Text = append(pilot.Text, str(k))
			}
		case "say":
			said = fmt.Sprintf("<%d>", n)
			ed.Out.WriteString(said)
		case "init":
			ed.Init()
		case "read":
			color.n = 0
			lfs, prs = []string{}, []string{}
			line, err := ed.ReadLine(context.Background())
			e.Line = cps(line)
			switch {
			case err == nil:
			case errors.Is(err, io.EOF):
				e.Err = "eof"
			case errors.Is(err, rl.CtrlC):
				e.Err = "intr"
			default:
				e.Err = err.Error()
			}
			if e.Err != "nil" {
				e.Line = []int{}
			}
			w, h, err := pilot.Size()
			if err != nil {
				die(err.Error())
			}
			e.Size = []int{w, h}
			if said != "" {
				all, err := os.ReadFile(std.Name())
				if err != nil {
					die(err.Error())
				}
				e.Lost = !strings.Contains(A.String()+B.String()+string(all[min(int(stdBefore), len(all)):]), said)
				said = ""
			}
			e.Coloured = color.n > 0
			e.Lfs, e.Prs = lfs, prs
		default:
			die(o.Op)
		}
		for _, n := range []string{"A", "B"} {
			if sinks[n].Len() > 0 {
				e.Got = append(e.Got, n)
				sinks[n].Reset()
			}
		}
		if n, _ := std.Seek(0, io.SeekEnd); n > stdBefore {
			e.Got = append(e.Got, "std")
		}
		e.W, e.Out, e.Hist, e.Color, e.Tty = "?", "?", "?", "?", "?"
		if ed.Writer == nil {
			e.W = "nil"
		}
		for n, w := range writers {
			if ed.Writer == w {
				e.W = n
			}
		}
		if ed.Out == nil {
			e.Out = "nil"
		}
		for n, w := range outs {
			if ed.Out == w {
				e.Out = n
			}
		}
		if ed.History == nil {
			e.Hist = "nil"
		} else if ed.History == rl.IHistory(hist) {
			e.Hist = "H"
		}
		if ed.Coloring == nil {
			e.Color = "nil"
		} else if ed.Coloring == rl.Coloring(color) {
			e.Color = "K"
		}
		if ed.Tty == nil {
			e.Tty = "nil"
		} else if ed.Tty == rl.ITty(pilot) {
			e.Tty = "pilot"
		}
		e.Def, e.Cur, e.Cyc, e.Lf, e.Pr = cps(ed.Default), ed.Cursor, "off", lf, pr
		if ed.HistoryCycling {
			e.Cyc = "on"
		}
		if (ed.LineFeedWriter == nil) != (lf == "nil") {
			e.Lf = "?"
		}
		if (ed.PromptWriter == nil) != (pr == "nil") {
			e.Pr = "?"
		}
		e.Paint = ed.PredictColor == rl.PredictColorBlueItalic
		e.Pred = pred
		if ed.Predictor == nil {
			e.Pred = "nil"
		} else if pred == "nil" {
			e.Pred = "?"
		}
		t.add(e)
	}
}
