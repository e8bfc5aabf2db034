package main

import (
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/mattn/go-runewidth"
)

// EnvFlags are the terminal capabilities a terminal setting stands for. They
// are stated here independently of the code under test, which derives them
// from environment variables.
type EnvFlags struct {
	Name string `json:"name"`
	Surr bool   `json:"surr"`
	Zwj  bool   `json:"zwj"`
	Vs   bool   `json:"vs"`
	Mod  bool   `json:"mod"`
	Amb  bool   `json:"amb"`
	Ov   []int  `json:"ov"` // width overrides; none unless a job makes some
	Zw   int    `json:"zw"` // columns of the joiner of a joined pair
}

var envs = map[string]EnvFlags{
	"wt":      flags("wt", true, true, true, true, false),
	"wez":     flags("wez", true, true, true, true, true),
	"contour": flags("contour", true, true, true, false, true),
	"plain":   flags("plain", false, false, false, false, true),
	"vscode":  flags("vscode", false, false, false, false, true),
	"halfwt":  flags("halfwt", false, false, false, false, true),
}

func flags(name string, surr, zwj, vs, mod, amb bool) EnvFlags {
	return EnvFlags{name, surr, zwj, vs, mod, amb, []int{}, 1}
}

var curEnv EnvFlags
var libWidth func(rune) int

// What a program using the package has told it about the terminal; the
// modelled terminal is as it said.
var widthOverride = map[rune]int{}
var zwjCols = 1

func setupEnv(name string) {
	e, ok := envs[name]
	if !ok {
		die("unknown env " + name)
	}
	curEnv = e
	libWidth = newLibWidth(e.Amb)
}

func runewidthOf(amb bool) func(rune) int {
	c := runewidth.NewCondition()
	c.EastAsianWidth = amb
	return c.RuneWidth
}

// tblWidth is the width tables give a code point (plus user overrides).
func tblWidth(r rune) int {
	if w, ok := widthOverride[r]; ok {
		return w
	}
	return libWidth(r)
}

func isVSLike(r rune) bool {
	return unicode.Is(unicode.Variation_Selector, r) || unicode.Is(unicode.Me, r)
}

// termWidth is how many columns the modelled terminal uses for a code point.
func termRuneWidth(r rune) int {
	switch {
	case r == 0x200D:
		if curEnv.Zwj {
			return zwjCols
		}
		return 0
	case isVSLike(r):
		if curEnv.Vs {
			return 1
		}
		return 0
	case r >= 0x1F1E6 && r <= 0x1F1FF:
		return 2
	}
	return tblWidth(r)
}

// Attr is the graphic rendition of a terminal cell.
type Attr struct {
	FG, BG     string
	Bold, Ital bool
	Under, Inv bool
}

type tcell struct {
	cps  []int
	attr Attr
}

// Term is a small terminal model: a grid, a cursor, one saved cursor, and the
// control functions the editor (or an equivalent rewrite of it) may use.
type Term struct {
	W, H    int
	grid    [][]tcell
	x, y    int
	sx, sy  int
	wrap    bool // the last column has been written, next character wraps
	Visible bool
	attr    Attr
	Bell    int
	Wraps   int
	Scrolls int
	Ops     map[string]bool
	pend    []byte
	prev    rune
	Bytes   int
	writes  int
	onWrite func()
	mu      sync.Mutex
}

func (t *Term) total() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.Bytes
}

func newTerm(w, h int) *Term {
	if w < 1 {
		w = 1
	}
	t := &Term{W: w, H: h, Visible: true, Ops: map[string]bool{}}
	t.grid = make([][]tcell, h)
	for i := range t.grid {
		t.grid[i] = make([]tcell, w)
	}
	return t
}

func (t *Term) resize(w int) {
	if w < 1 {
		w = 1
	}
	for i := range t.grid {
		row := make([]tcell, w)
		copy(row, t.grid[i])
		t.grid[i] = row
	}
	t.W = w
	if t.x >= w {
		t.x = w - 1
	}
	t.wrap = false
}

func (t *Term) op(name string) { t.Ops[name] = true }

func (t *Term) lineFeed() {
	if t.y == t.H-1 {
		copy(t.grid, t.grid[1:])
		t.grid[t.H-1] = make([]tcell, t.W)
		t.Scrolls++
		return
	}
	t.y++
}

func (t *Term) put(r rune) {
	w := termRuneWidth(r)
	if curEnv.Amb && isVSLike(r) && t.prev >= 0x2500 && t.prev <= 0x257F {
		w = 0 // a wide box-drawing character does not grow by a selector
	}
	t.prev = r
	if w == 0 {
		// joins the character before it
		x := t.x
		if !t.wrap {
			x--
		}
		for x >= 0 && len(t.grid[t.y][x].cps) == 1 && t.grid[t.y][x].cps[0] == -1 {
			x--
		}
		if x >= 0 {
			c := &t.grid[t.y][x]
			if len(c.cps) == 0 {
				c.cps = []int{32}
			}
			c.cps = append(append([]int{}, c.cps...), int(r))
		}
		return
	}
	if t.wrap || t.x+w > t.W {
		t.Wraps++
		t.x = 0
		t.wrap = false
		t.lineFeed()
	}
	for i := 0; i < w && t.x+i < t.W; i++ {
		t.clearWide(t.x + i)
	}
	for i := 0; i < w && t.x+i < t.W; i++ {
		if i == 0 {
			t.grid[t.y][t.x].cps = []int{int(r)}
		} else {
			t.grid[t.y][t.x+i].cps = []int{-1}
		}
		t.grid[t.y][t.x+i].attr = t.attr
	}
	// what is left of an overwritten wide character disappears
	for i := t.x + w; i < t.W && len(t.grid[t.y][i].cps) == 1 && t.grid[t.y][i].cps[0] == -1; i++ {
		t.grid[t.y][i] = tcell{}
	}
	t.x += w
	if t.x >= t.W {
		t.x = t.W - 1
		t.wrap = true
	}
}

func (t *Term) clearWide(x int) {
	c := t.grid[t.y][x].cps
	if len(c) == 1 && c[0] == -1 {
		i := x
		for i > 0 && len(t.grid[t.y][i].cps) == 1 && t.grid[t.y][i].cps[0] == -1 {
			t.grid[t.y][i] = tcell{}
			i--
		}
		if i < x {
			t.grid[t.y][i] = tcell{}
		}
	}
}

// Write feeds output bytes to the terminal model.
func (t *Term) Write(p []byte) (int, error) {
	if t.onWrite != nil {
		t.onWrite()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Bytes += len(p)
	t.writes++
	t.pend = append(t.pend, p...)
	for len(t.pend) > 0 {
		n := t.consume(t.pend)
		if n == 0 {
			break
		}
		t.pend = t.pend[n:]
	}
	return len(p), nil
}

func (t *Term) setCol(x int) {
	if x < 0 {
		x = 0
	}
	if x >= t.W {
		x = t.W - 1
	}
	t.x = x
	t.wrap = false
}

func (t *Term) eraseLine(from, to int) {
	for i := from; i < to && i < t.W; i++ {
		if i >= 0 {
			t.grid[t.y][i] = tcell{}
		}
	}
}

// consume handles one character or control function; 0 means "need more".
func (t *Term) consume(b []byte) int {
	c := b[0]
	if c < 0x20 {
		t.prev = 0
	}
	switch {
	case c == 0x1B:
		return t.escape(b)
	case c == '\r':
		t.op("CR")
		t.setCol(0)
		return 1
	case c == '\n':
		// the editor's output goes through the tty's ONLCR processing
		t.op("LF")
		t.setCol(0)
		t.lineFeed()
		return 1
	case c == '\b':
		t.op("BS")
		t.setCol(t.x - 1)
		return 1
	case c == 7:
		t.op("BEL")
		t.Bell++
		return 1
	case c == '\t':
		t.op("HT")
		t.setCol((t.x/8 + 1) * 8)
		return 1
	case c < 0x20 || c == 0x7F:
		t.op("C0:" + strconv.Itoa(int(c)))
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if r == utf8.RuneError && n == 1 {
		t.op("BADUTF8")
		return 1
	}
	if r >= 0x80 && r < 0xA0 {
		t.op("C1:" + strconv.Itoa(int(r)))
		return n
	}
	t.put(r)
	return n
}

func (t *Term) escape(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '7':
		t.op("DECSC")
		t.sx, t.sy = t.x, t.y
		return 2
	case '8':
		t.op("DECRC")
		t.y = t.sy
		t.setCol(t.sx)
		return 2
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				t.op("OSC")
				return i + 1
			}
			if b[i] == 0x1B && i+1 < len(b) && b[i+1] == '\\' {
				t.op("OSC")
				return i + 2
			}
		}
		return 0
	case '[':
		i := 2
		for i < len(b) && (b[i] < 0x40 || b[i] > 0x7E) {
			if b[i] < 0x20 || b[i] > 0x7E {
				t.op("BADCSI")
				return i
			}
			i++
		}
		if i >= len(b) {
			return 0
		}
		t.csi(string(b[2:i]), b[i])
		return i + 1
	}
	t.op("ESC:" + strconv.Itoa(int(b[1])))
	if b[1] >= 0x80 || b[1] < 0x20 {
		return 1
	}
	// intermediate bytes and a final byte
	for i := 1; i < len(b); i++ {
		if b[i] < 0x20 || b[i] >= 0x80 {
			return i
		}
		if b[i] > 0x2F {
			return i + 1
		}
	}
	return 0
}

func (t *Term) csi(par string, final byte) {
	num := func(def int) int {
		n, err := strconv.Atoi(par)
		if err != nil || n == 0 {
			return def
		}
		return n
	}
	if par == "?25" && (final == 'h' || final == 'l') {
		t.op("DECTCEM")
		t.Visible = final == 'h'
		return
	}
	switch final {
	case 'G', '`':
		t.op("CHA")
		t.setCol(num(1) - 1)
	case 'C':
		t.op("CUF")
		t.setCol(t.x + num(1))
	case 'D':
		t.op("CUB")
		t.setCol(t.x - num(1))
	case 'K':
		t.op("EL")
		switch par {
		case "", "0":
			from := t.x
			if t.wrap {
				from = t.W
			}
			t.eraseLine(from, t.W)
		case "1":
			t.eraseLine(0, t.x+1)
		case "2":
			t.eraseLine(0, t.W)
		}
	case 'H', 'f':
		t.op("CUP")
		y, x := 1, 1
		if f := strings.SplitN(par, ";", 2); len(f) > 0 {
			if n, err := strconv.Atoi(f[0]); err == nil {
				y = n
			}
			if len(f) > 1 {
				if n, err := strconv.Atoi(f[1]); err == nil {
					x = n
				}
			}
		}
		t.y = max(0, min(t.H-1, y-1))
		t.setCol(x - 1)
	case 'J':
		t.op("ED")
		if par == "2" {
			for i := range t.grid {
				t.grid[i] = make([]tcell, t.W)
			}
		} else if par == "" || par == "0" {
			t.eraseLine(t.x, t.W)
			for i := t.y + 1; i < t.H; i++ {
				t.grid[i] = make([]tcell, t.W)
			}
		}
	case 's':
		t.op("SCP")
		t.sx, t.sy = t.x, t.y
	case 'u':
		t.op("RCP")
		t.y = t.sy
		w := t.wrap && t.x == t.sx
		t.setCol(t.sx)
		t.wrap = w
	case 'm':
		t.op("SGR")
		t.sgr(par)
	default:
		t.op("CSI:" + par + string(final))
	}
}

func (t *Term) sgr(par string) {
	if par == "" {
		par = "0"
	}
	for _, f := range strings.Split(par, ";") {
		n, err := strconv.Atoi(f)
		if err != nil {
			n = 0
		}
		switch {
		case n == 0:
			t.attr = Attr{}
		case n == 1:
			t.attr.Bold = true
		case n == 3:
			t.attr.Ital = true
		case n == 4:
			t.attr.Under = true
		case n == 7:
			t.attr.Inv = true
		case n == 22:
			t.attr.Bold = false
		case n == 23:
			t.attr.Ital = false
		case n == 24:
			t.attr.Under = false
		case n == 27:
			t.attr.Inv = false
		case n == 39:
			t.attr.FG = ""
		case n == 49:
			t.attr.BG = ""
		case n >= 30 && n <= 37 || n >= 90 && n <= 97:
			t.attr.FG = strconv.Itoa(n)
		case n >= 40 && n <= 47 || n >= 100 && n <= 107:
			t.attr.BG = strconv.Itoa(n)
		}
	}
}

func blank(c tcell) bool {
	return len(c.cps) == 0 || (len(c.cps) == 1 && c.cps[0] == 32)
}

// rowCols returns row y as columns without trailing blanks.
func (t *Term) rowCols(y int) [][]int {
	row := t.grid[y]
	n := len(row)
	for n > 0 && blank(row[n-1]) {
		n--
	}
	out := make([][]int, n)
	for i := 0; i < n; i++ {
		if len(row[i].cps) == 0 {
			out[i] = []int{32}
		} else {
			out[i] = row[i].cps
		}
	}
	return out
}

// rowAttrs returns the attributes of the first n columns of row y.
func (t *Term) rowAttrs(y, n int) []string {
	out := make([]string, 0, n)
	for i := 0; i < n && i < t.W; i++ {
		out = append(out, attrString(t.grid[y][i].attr))
	}
	return out
}

func attrString(a Attr) string {
	s := a.FG + "/" + a.BG
	if a.Bold {
		s += "b"
	}
	if a.Ital {
		s += "i"
	}
	if a.Under {
		s += "u"
	}
	if a.Inv {
		s += "v"
	}
	return s
}

func (t *Term) snapshotRows() []string {
	out := make([]string, t.H)
	for y := range t.grid {
		var sb strings.Builder
		for _, c := range t.rowCols(y) {
			for _, r := range c {
				sb.WriteString(strconv.Itoa(r))
				sb.WriteByte('.')
			}
			sb.WriteByte(' ')
		}
		out[y] = sb.String()
	}
	return out
}
