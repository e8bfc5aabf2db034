package main

import (
	"bytes"
	"strings"
	"time"

	rl "github.com/nyaosorg/go-readline-ny"
)

func init() { modes["moji"] = runMoji }

// mojiOp is a call of the functions on characters and their widths.
type mojiOp struct {
	Op string `json:"op"` // setw, resetw, surr, zw, text
	CP int    `json:"cp"`
	W  int    `json:"w"`
	On bool   `json:"on"`
	S  []int  `json:"s"`
}

type mojiEvent struct {
	Fail  string  `json:"fail"`
	O     mojiOp  `json:"o"`
	Cells [][]int `json:"cells"` // what WriteTo of each writes
	Bytes []int64 `json:"bytes"` // the count it reports
	Len   []int   `json:"len"`   // the count it wrote
	Ws    []int   `json:"ws"`    // Width of each
	Row   [][]int `json:"row"`   // what PrintTo of all shows
	Rows  int     `json:"rows"`
	Col   int     `json:"col"`
	Width int     `json:"width"` // GetStringWidth
	Count int     `json:"count"` // MojiCountInString
	Surr  bool    `json:"surr"`  // IsSurrogatePairEnabled
}

func runMoji(in, out string, skip int) {
	smallMode(in, out, skip, 20*time.Second, func(b []byte, t *smallTrace) {
		var j struct {
			Script []mojiOp `json:"script"`
		}
		mustJSON(b, &j)
		defer func() {
			rl.EnableSurrogatePair(surrAtStart)
			rl.ResetCharWidth()
			widthOverride = map[rune]int{}
		}()
		for _, op := range j.Script {
			switch op.Op {
			case "setw":
				str([]int{op.CP})
				rl.SetCharWidth(rune(op.CP), op.W)
				widthOverride[rune(op.CP)] = op.W
			case "resetw":
				rl.ResetCharWidth()
				widthOverride = map[rune]int{}
			case "surr":
				rl.EnableSurrogatePair(op.On)
			case "zw":
				k := op.W
				zwjCols = max(k, 0)
				rl.SetZWJSWidthGetter(func(w1, w2 int) int {
					if k < 0 {
						return 2
					}
					return w1 + k + w2
				})
			case "text":
			default:
				die(op.Op)
			}
			if op.S == nil {
				op.S = []int{}
			}
			text := str(op.S)
			e := mojiEvent{O: op, Cells: [][]int{}, Bytes: []int64{}, Len: []int{}, Ws: []int{}}
			term := newTerm(400, 3)
			for _, m := range rl.StringToMoji(text) {
				var w bytes.Buffer
				n, err := m.WriteTo(&w)
				if err != nil {
					n = -1
				}
				e.Cells = append(e.Cells, cps(w.String()))
				e.Bytes, e.Len = append(e.Bytes, n), append(e.Len, w.Len())
				e.Ws = append(e.Ws, int(m.Width()))
				var p strings.Builder
				m.PrintTo(&p)
				term.Write([]byte(p.String()))
			}
			e.Row, e.Rows, e.Col = term.rowCols(0), term.y, term.x
			e.Width, e.Count = int(rl.GetStringWidth(text)), rl.MojiCountInString(text)
			e.Surr = rl.IsSurrogatePairEnabled()
			t.add(e)
		}
	})
}
