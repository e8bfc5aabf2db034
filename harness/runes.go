package main

import (
	"sort"
	"unicode"
)

// RuneInfo is what the specification needs to know about a code point. It
// comes from the Unicode tables and the width library, not from the code
// under test.
type RuneInfo struct {
	CP    int  `json:"cp"`
	W     int  `json:"w"`
	TW    int  `json:"tw"`
	VS    bool `json:"vs"`
	Space bool `json:"sp"`
	Ctrl  bool `json:"ctl"`
	Upper int  `json:"up"`
	Fold  int  `json:"fold"`
}

func foldOf(r rune) rune {
	m := r
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		if f < m {
			m = f
		}
	}
	return m
}

func runeInfo(r rune) RuneInfo {
	return RuneInfo{
		CP:    int(r),
		W:     tblWidth(r),
		TW:    termRuneWidth(r),
		VS:    isVSLike(r),
		Space: unicode.IsSpace(r),
		Ctrl:  unicode.IsControl(r),
		Upper: int(unicode.ToUpper(r)),
		Fold:  int(foldOf(r)),
	}
}

// writeRunes writes the table for every code point that occurred.
func writeRunes(path string) {
	widthOverride, zwjCols = map[rune]int{}, 1
	for r := rune(0); r < 256; r++ {
		seenRunes[r] = true
	}
	for _, r := range []rune{0x200D, 0xFFFD, 0x3042, 0xE000} {
		seenRunes[r] = true
	}
	for r := range seenRunes {
		seenRunes[unicode.ToUpper(r)] = true
	}
	infos := []RuneInfo{}
	for r := range seenRunes {
		infos = append(infos, runeInfo(r))
	}
	sort.Slice(infos, func(i, j int) bool { return infos[i].CP < infos[j].CP })
	o := newOutput(path)
	o.put(map[string]any{"env": curEnv, "runes": infos})
	o.close()
}
