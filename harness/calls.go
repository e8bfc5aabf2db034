package main

import (
	"context"
	"io"
	"strings"

	rl "github.com/nyaosorg/go-readline-ny"
)

// userCommand is the command of a program: it makes the calls of the current
// event and records what they answer.
func (r *editRun) userCommand(ctx context.Context, B *rl.Buffer) rl.Result {
	e := r.cur
	e.Rets = []Ret{}
	dirty := false
	for i := range e.Cs {
		c := &e.Cs[i]
		if c.S == nil {
			c.S = []int{}
		}
		switch c.Op {
		case "ins", "del", "sub", "wid", "cur", "str", "vw", "none":
		default:
			B.Cursor = min(B.Cursor, len(B.Buffer))
		}
		n := len(B.Buffer)
		p := min(c.P, n)
		q := max(p, min(c.N, n))
		s := str(c.S)
		ret := Ret{R: []int{}, T: []int{}}
		switch c.Op {
		case "ins":
			ret.R = []int{B.InsertString(p, s)}
			dirty = true
		case "del":
			ret.R = []int{int(B.Delete(p, c.N))}
			dirty = true
		case "rep":
			B.ReplaceAndRepaint(min(p, B.Cursor), s)
			dirty = false
		case "insr":
			B.InsertAndRepaint(s)
			dirty = false
		case "sub":
			ret.T = cps(B.SubString(p, q))
		case "str":
			ret.R, ret.T = []int{len(B.Buffer)}, cps(B.String())
		case "wid":
			ret.R = []int{int(B.GetWidthBetween(p, q))}
		case "word":
			w, top := B.CurrentWord()
			ret.R, ret.T = []int{top, B.CurrentWordTop()}, cps(w)
		case "suf":
			var b strings.Builder
			for _, m := range B.Suffix() {
				m.WriteTo(&b)
			}
			ret.T = cps(b.String())
		case "vw":
			ret.R = []int{int(B.ViewWidth())}
		case "none":
			g := &rl.GoCommand{Name: s}
			ret.R, ret.T = []int{int(g.Call(ctx, B))}, cps(g.String())
		case "cur":
			B.Cursor = p
			dirty = true
		case "cmd":
			if dirty {
				B.RepaintAfterPrompt()
				dirty = false
			}
			if rc := B.LookupCommand(s).Call(ctx, B); rc != rl.CONTINUE {
				die("a command that ends the read inside another")
			}
		case "after":
			B.RepaintAfterPrompt()
			dirty = false
		case "head":
			B.DrawFromHead()
			dirty = false
		case "view":
			B.GotoHead()
			B.ResetViewStart()
			dirty = true
		case "last":
			B.RepaintLastLine()
			dirty = false
		case "say":
			io.WriteString(B.Out, "\nmessage\n")
			B.RepaintAll()
			dirty = false
		default:
			die(c.Op)
		}
		e.Rets = append(e.Rets, ret)
	}
	if dirty {
		B.Cursor = min(B.Cursor, len(B.Buffer))
		B.RepaintAfterPrompt()
	}
	return rl.Result(e.RC)
}
