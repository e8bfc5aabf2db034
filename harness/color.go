package main

import (
	"bytes"
	"errors"
	"time"

	"github.com/nyaosorg/go-readline-ny"
)

func init() { modes["color"] = runColor }

// colorOp is an operation on one of two colour sequences.
type colorOp struct {
	Op   string `json:"op"`
	R    int    `json:"r"`
	V    []int  `json:"v"`
	Name string `json:"name"`
}

type colorEvent struct {
	Fail  string     `json:"fail"`
	O     colorOp    `json:"o"`
	Out   [2][]int   `json:"out"`
	N     [2]int64   `json:"n"`
	Short [2][][]int `json:"short"`
}

var colorNames = map[string]readline.ColorSequence{
	"ColorReset":                 readline.ColorReset,
	"Black":                      readline.Black,
	"Red":                        readline.Red,
	"Green":                      readline.Green,
	"Yellow":                     readline.Yellow,
	"Blue":                       readline.Blue,
	"Magenta":                    readline.Magenta,
	"Cyan":                       readline.Cyan,
	"White":                      readline.White,
	"DefaultForeGroundColor":     readline.DefaultForeGroundColor,
	"DarkGray":                   readline.DarkGray,
	"DarkRed":                    readline.DarkRed,
	"DarkGree":                   readline.DarkGree,
	"DarkYellow":                 readline.DarkYellow,
	"DarkBlue":                   readline.DarkBlue,
	"DarkMagenta":                readline.DarkMagenta,
	"DarkCyan":                   readline.DarkCyan,
	"DarkWhite":                  readline.DarkWhite,
	"DarkDefaultForeGroundColor": readline.DarkDefaultForeGroundColor,
}

// shortWriter accepts only the first m bytes.
type shortWriter struct {
	left int
}

var errShort = errors.New("disk full")

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	return n, errShort
}

func bytesOf(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

func runColor(in, out string, skip int) {
	smallMode(in, out, skip, 20*time.Second, func(b []byte, t *smallTrace) {
		var j struct {
			Script []colorOp `json:"script"`
		}
		mustJSON(b, &j)
		regs := [2]readline.ColorSequence{}
		for _, op := range j.Script {
			r := op.R - 1
			switch op.Op {
			case "sgr":
				switch v := op.V; len(v) {
				case 1:
					regs[r] = readline.SGR1(v[0])
				case 2:
					regs[r] = readline.SGR2(v[0], v[1])
				case 3:
					regs[r] = readline.SGR3(v[0], v[1], v[2])
				case 4:
					regs[r] = readline.SGR4(v[0], v[1], v[2], v[3])
				default:
					die("sgr")
				}
			case "none":
				regs[r] = 0
			case "named":
				c, ok := colorNames[op.Name]
				if !ok {
					die(op.Name)
				}
				regs[r] = c
			case "add":
				regs[r] = regs[r].Add(op.V[0])
			case "chain":
				regs[r] = regs[r].Chain(regs[1-r])
			default:
				die(op.Op)
			}
			if op.V == nil {
				op.V = []int{}
			}
			e := colorEvent{O: op}
			for k := range regs {
				var buf bytes.Buffer
				n, err := regs[k].WriteTo(&buf)
				if err != nil {
					n = -1
				}
				e.Out[k], e.N[k] = bytesOf(buf.Bytes()), n
				e.Short[k] = [][]int{}
				for m := 0; m < buf.Len(); m++ {
					n, err := regs[k].WriteTo(&shortWriter{left: m})
					bad := 0
					if err != nil {
						bad = 1
					}
					e.Short[k] = append(e.Short[k], []int{m, int(n), bad})
				}
			}
			t.add(e)
		}
	})
}
