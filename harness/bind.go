package main

import (
	"bytes"
	"context"
	"errors"
	"time"

	"github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/nameutils"
)

func init() { modes["bind"] = runBind }

type bindOp struct {
	Op    string `json:"op"`
	M     int    `json:"m"`
	Key   []int  `json:"key"`
	Cmd   string `json:"cmd"`
	Fname []int  `json:"fname"`
}

type bindEvent struct {
	Fail  string     `json:"fail"`
	O     bindOp     `json:"o"`
	Err   bool       `json:"err"`
	Got   []int      `json:"got"`
	Keys  [][]int    `json:"keys"`
	Look  [2][][]int `json:"look"`
	Maps  [3][][]int `json:"maps"`
	Marks []string   `json:"marks"`
	Line  []int      `json:"line"`
}

func byteStr(b []int) string {
	out := make([]byte, len(b))
	for i, v := range b {
		out[i] = byte(v)
	}
	return string(out)
}

// pressTty delivers one key, Enter, and then fails.
type pressTty struct {
	keys []string
}

func (t *pressTty) Open(func(int)) error    { return nil }
func (t *pressTty) Close() error            { return nil }
func (t *pressTty) Size() (int, int, error) { return 80, 25, nil }
func (t *pressTty) GetKey() (string, error) {
	if len(t.keys) == 0 {
		return "", errEnd
	}
	k := t.keys[0]
	t.keys = t.keys[1:]
	return k, nil
}

type marker struct {
	name string
	log  *[]string
}

func (m *marker) String() string { return m.name }
func (m *marker) Call(context.Context, *readline.Buffer) readline.Result {
	*m.log = append(*m.log, m.name)
	return readline.CONTINUE
}

func runBind(in, out string, skip int) {
	smallMode(in, out, skip, 20*time.Second, func(b []byte, t *smallTrace) {
		var j struct {
			Script []bindOp `json:"script"`
			Keys   [][]int  `json:"keys"`
		}
		mustJSON(b, &j)
		marks := []string{}
		mk := map[string]readline.Command{
			"MARK1": &marker{"MARK1", &marks},
			"MARK2": &marker{"MARK2", &marks},
		}
		var e1, e2 readline.Editor
		eds := []*readline.Editor{&e1, &e2}
		maps := []*readline.KeyMap{&e1.KeyMap, &e2.KeyMap, readline.GlobalKeyMap}
		saved := map[keys.Code]readline.Command{}
		save := func(k keys.Code) {
			if _, ok := saved[k]; !ok {
				saved[k], _ = readline.GlobalKeyMap.Lookup(k)
			}
		}
		for _, k := range j.Keys {
			save(keys.Code(byteStr(k)))
		}
		defer func() {
			for k, f := range saved {
				readline.GlobalKeyMap.BindKey(k, f)
			}
		}()
		for _, op := range j.Script {
			if op.Fname == nil {
				op.Fname = []int{}
			}
			if op.Key == nil {
				op.Key = []int{}
			}
			e := bindEvent{O: op, Got: []int{}, Keys: j.Keys, Marks: []string{}, Line: []int{}}
			var cmd readline.Command
			if op.Cmd != "" {
				if c, ok := mk[op.Cmd]; ok {
					cmd = c
				} else if c, ok := commands[op.Cmd]; ok {
					cmd = c
				} else {
					die(op.Cmd)
				}
			}
			key := byteStr(op.Key)
			marks = marks[:0]
			switch op.Op {
			case "code":
				save(keys.Code(key))
				switch {
				case op.M == 3:
					readline.GlobalKeyMap.BindKey(keys.Code(key), cmd)
				default:
					eds[op.M-1].BindKey(keys.Code(key), cmd)
				}
			case "func":
				save(keys.NameToCode[keys.NormalizeName(key)])
				e.Err = nameutils.BindKeyFunc(maps[op.M-1], key, cmd) != nil
			case "symbol":
				save(keys.NameToCode[keys.NormalizeName(key)])
				e.Err = nameutils.BindKeySymbol(maps[op.M-1], key, byteStr(op.Fname)) != nil
			case "getfunc":
				f, err := nameutils.GetFunc(byteStr(op.Fname))
				e.Err = err != nil
				if f != nil {
					e.Got = bytesOf([]byte(f.String()))
				}
			case "look":
			case "press":
				ed := eds[op.M-1]
				ed.Tty = &pressTty{keys: []string{key, "\r"}}
				ed.Writer = &bytes.Buffer{}
				line, err := ed.ReadLine(context.Background())
				if err != nil && !errors.Is(err, errEnd) && !errors.Is(err, readline.CtrlC) && err.Error() != "EOF" {
					e.Err = true
				}
				e.Line = bytesOf([]byte(line))
				e.Marks = append([]string{}, marks...)
			default:
				die(op.Op)
			}
			for n, ed := range eds {
				e.Look[n] = [][]int{}
				for _, k := range j.Keys {
					e.Look[n] = append(e.Look[n], bytesOf([]byte(ed.LookupCommand(byteStr(k)).String())))
				}
			}
			for n, m := range maps {
				e.Maps[n] = [][]int{}
				for _, k := range j.Keys {
					v := []int{}
					if f, ok := m.Lookup(keys.Code(byteStr(k))); ok {
						v = bytesOf([]byte(f.String()))
					}
					e.Maps[n] = append(e.Maps[n], v)
				}
			}
			t.add(e)
		}
	})
}

// commands are the exported commands, whatever the name tables say.
var commands = map[string]readline.Command{
	"ACCEPT_LINE":          readline.CmdAcceptLine,
	"INTR":                 readline.CmdInterrupt,
	"BEGINNING_OF_LINE":    readline.CmdBeginningOfLine,
	"BACKWARD_CHAR":        readline.CmdBackwardChar,
	"END_OF_LINE":          readline.CmdEndOfLine,
	"FORWARD_CHAR":         readline.CmdForwardChar,
	"BACKWARD_DELETE_CHAR": readline.CmdBackwardDeleteChar,
	"DELETE_CHAR":          readline.CmdDeleteChar,
	"DELETE_OR_ABORT":      readline.CmdDeleteOrAbort,
	"KILL_LINE":            readline.CmdKillLine,
	"KILL_WHOLE_LINE":      readline.CmdKillWholeLine,
	"UNIX_WORD_RUBOUT":     readline.CmdUnixWordRubout,
	"UNIX_LINE_DISCARD":    readline.CmdUnixLineDiscard,
	"CLEAR_SCREEN":         readline.CmdClearScreen,
	"REPAINT_ON_NEWLINE":   readline.CmdRepaintOnNewline,
	"QUOTED_INSERT":        readline.CmdQuotedInsert,
	"YANK":                 readline.CmdYank,
	"YANK_WITH_QUOTE":      readline.CmdYankWithQuote,
	"SWAPCHAR":             readline.CmdSwapChar,
	"BACKWARD_WORD":        readline.CmdBackwardWord,
	"FORWARD_WORD":         readline.CmdForwardWord,
	"UNDO":                 readline.CmdUndo,
	"PREVIOUS_HISTORY":     readline.CmdPreviousHistory,
	"NEXT_HISTORY":         readline.CmdNextHistory,
	"ISEARCH_BACKWARD":     readline.CmdISearchBackward,
}
