package main

import (
	"errors"
	"time"

	"github.com/nyaosorg/go-readline-ny"
)

func init() { modes["keys"] = runKeys }

type keyUnit struct {
	U    int  `json:"u"`
	More bool `json:"more"`
}

// scriptTty delivers units; it fails for ever after the last one.
type scriptTty struct {
	units   []keyUnit
	pos     int
	rawFail bool
	raw     bool
	enter   int
	leave   int
	outside int
	noraw   bool
}

var (
	errRead = errors.New("read error")
	errEnd  = errors.New("end of script")
	errRaw  = errors.New("raw error")
)

func (t *scriptTty) Raw() (func() error, error) {
	if t.rawFail {
		return nil, errRaw
	}
	t.enter++
	t.raw = true
	return func() error {
		t.leave++
		t.raw = false
		return nil
	}, nil
}

func (t *scriptTty) ReadRune() (rune, error) {
	if !t.raw {
		t.outside++
	}
	if t.pos >= len(t.units) {
		return 0, errEnd
	}
	u := t.units[t.pos]
	t.pos++
	if u.U == -1 {
		return 0, errRead
	}
	return rune(u.U), nil
}

func (t *scriptTty) Buffered() bool {
	return t.pos > 0 && t.pos < len(t.units) && t.units[t.pos-1].More
}

type keysEvent struct {
	Fail    string    `json:"fail"`
	Units   []keyUnit `json:"units"`
	Fn      string    `json:"fn"`
	From    int       `json:"from"`
	To      int       `json:"to"`
	Keys    [][]int   `json:"keys"`
	Err     string    `json:"err"`
	Enter   int       `json:"enter"`
	Leave   int       `json:"leave"`
	Outside int       `json:"outside"`
	RawFail int       `json:"rawfail"`
}

func runKeys(in, out string, skip int) {
	smallMode(in, out, skip, 20*time.Second, func(b []byte, tr *smallTrace) {
		var j struct {
			Units   []keyUnit `json:"units"`
			Fns     []string  `json:"fns"`
			RawFail int       `json:"rawfail"`
		}
		mustJSON(b, &j)
		t := &scriptTty{units: j.Units}
		for n := 0; ; n++ {
			e := keysEvent{Units: []keyUnit{}, Fn: j.Fns[n%len(j.Fns)], From: t.pos}
			if n == 0 {
				e.Units = j.Units
			}
			t.enter, t.leave, t.outside = 0, 0, 0
			t.rawFail = n+1 == j.RawFail && e.Fn != "raw"
			if t.rawFail {
				e.RawFail = 1
			}
			var keys []string
			var err error
			switch e.Fn {
			case "raw":
				var k string
				k, err = readline.GetRawKey(t)
				keys = []string{k}
				if k == "" {
					keys = nil
				}
			case "key":
				var k string
				k, err = readline.GetKey(t)
				keys = []string{k}
				if k == "" {
					keys = nil
				}
			case "keys":
				keys, err = readline.GetKeys(t)
			default:
				die(e.Fn)
			}
			e.To, e.Keys = t.pos, cpss(keys)
			switch {
			case errors.Is(err, errEnd):
				e.Err = "end"
			case errors.Is(err, errRead):
				e.Err = "err"
			case errors.Is(err, errRaw):
				e.Err = "raw"
			case err != nil:
				e.Err = "other"
			}
			e.Enter, e.Leave, e.Outside = t.enter, t.leave, t.outside
			tr.add(e)
			if n > 4*len(j.Units)+10 || (e.Err == "end") {
				return
			}
		}
	})
}
