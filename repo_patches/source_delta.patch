From e743ad21150d5c68f609c2cb92b6ef76b50db39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:02 +0000
Subject: [PATCH 01/35] fix: undo of swapping characters at the end of the line

The undo record pointed behind the swapped pair. Undoing removed
characters beyond the end of the line and could panic.
---
 gommand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gommand.go b/gommand.go
index 165599a..7845c47 100644
--- a/gommand.go
+++ b/gommand.go
@@ -362,7 +362,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 			return CONTINUE
 		}
 		u := &_Undo{
-			pos:  this.Cursor,
+			pos:  this.Cursor - 2,
 			del:  2,
 			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
-- 
2.43.0


From 8bffce67589d714e4f318f9f767f8223b471a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:05 +0000
Subject: [PATCH 02/35] fix: keep the characters themselves in undo records

Undo records held plain text. When the removed characters could be
joined, for example a base character and a separately typed joiner,
undo restored another number of characters than had been removed and
later records pointed to wrong positions.
---
 buffer.go  | 12 ++++++++----
 gommand.go | 15 +++++++--------
 isearch.go |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/buffer.go b/buffer.go
index 00418e4..cc32933 100644
--- a/buffer.go
+++ b/buffer.go
@@ -13,7 +13,11 @@ const forbiddenWidth WidthT = 3 // = lastcolumn(1) and FULLWIDTHCHAR-SIZE(2)
 type _Undo struct {
 	pos  int
 	del  int
-	text string
+	text []Cell
+}
+
+func copyCells(cells []Cell) []Cell {
+	return append([]Cell(nil), cells...)
 }
 
 type Cell struct {
@@ -138,7 +142,7 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 	}
 	u := &_Undo{
 		pos:  pos,
-		text: cell2string(B.Buffer[pos : pos+n]),
+		text: copyCells(B.Buffer[pos : pos+n]),
 	}
 	B.undoes = append(B.undoes, u)
 
@@ -224,13 +228,13 @@ func (B *Buffer) joinUndo() {
 	if u1.pos != u2.pos {
 		return
 	}
-	if u1.text != "" && u2.text != "" {
+	if len(u1.text) > 0 && len(u2.text) > 0 {
 		return
 	}
 	if u1.del != 0 && u2.del != 0 {
 		return
 	}
-	if u1.text == "" {
+	if len(u1.text) == 0 {
 		u1.text = u2.text
 	}
 	if u1.del == 0 {
diff --git a/gommand.go b/gommand.go
index 7845c47..f54819d 100644
--- a/gommand.go
+++ b/gommand.go
@@ -237,7 +237,7 @@ func cmdKillLine(ctx context.Context, this *Buffer) Result {
 	this.eraseline()
 	u := &_Undo{
 		pos:  this.Cursor,
-		text: cell2string(this.Buffer[this.Cursor:]),
+		text: copyCells(this.Buffer[this.Cursor:]),
 	}
 	this.undoes = append(this.undoes, u)
 	this.Buffer = this.Buffer[:this.Cursor]
@@ -250,7 +250,7 @@ var CmdKillWholeLine = NewGoCommand("KILL_WHOLE_LINE", cmdKillWholeLine)
 func cmdKillWholeLine(ctx context.Context, this *Buffer) Result {
 	u := &_Undo{
 		pos:  0,
-		text: cell2string(this.Buffer),
+		text: copyCells(this.Buffer),
 	}
 	this.undoes = append(this.undoes, u)
 	this.GotoHead()
@@ -364,7 +364,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 2,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-2 : this.Cursor]),
+			text: copyCells(this.Buffer[this.Cursor-2 : this.Cursor]),
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
@@ -378,7 +378,7 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		u := &_Undo{
 			pos:  this.Cursor - 1,
 			del:  2,
-			text: cell2string(this.Buffer[this.Cursor-1 : this.Cursor+1]),
+			text: copyCells(this.Buffer[this.Cursor-1 : this.Cursor+1]),
 		}
 		this.undoes = append(this.undoes, u)
 
@@ -451,10 +451,9 @@ func cmdUndo(ctx context.Context, this *Buffer) Result {
 	if u.del > 0 {
 		this.Buffer = sliceDelete(this.Buffer, u.pos, u.del)
 	}
-	if u.text != "" {
-		cells := mojis2cells(StringToMoji(u.text))
-		this.Buffer = sliceInsert(this.Buffer, u.pos, cells...)
-		this.Cursor = u.pos + len(cells)
+	if len(u.text) > 0 {
+		this.Buffer = sliceInsert(this.Buffer, u.pos, u.text...)
+		this.Cursor = u.pos + len(u.text)
 	} else {
 		this.Cursor = u.pos
 	}
diff --git a/isearch.go b/isearch.go
index e983554..6f1f11d 100644
--- a/isearch.go
+++ b/isearch.go
@@ -74,7 +74,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			this.ViewStart = 0
 			u := &_Undo{
 				pos:  0,
-				text: cell2string(this.Buffer),
+				text: copyCells(this.Buffer),
 			}
 			this.undoes = append(this.undoes, u)
 			this.Buffer = this.Buffer[:0]
-- 
2.43.0


From 1a2d77a39b1f6f171d982af5f25c0d849b0079a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:31 +0000
Subject: [PATCH 03/35] fix: save the edited oldest entry at its own place when
 history cycles

When the history wraps from the oldest entry, the text of the line was
stored at the place after the newest entry instead of the place left.
---
 history.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/history.go b/history.go
index fda3c69..11a14ea 100644
--- a/history.go
+++ b/history.go
@@ -48,13 +48,13 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 	if this.History.Len() <= 0 {
 		return CONTINUE
 	}
+	if this.historyPointer <= 0 && !this.HistoryCycling {
+		return CONTINUE
+	}
+	this.saveModifiedHistory()
 	if this.historyPointer <= 0 {
-		if !this.HistoryCycling {
-			return CONTINUE
-		}
 		this.historyPointer = this.History.Len() + 1
 	}
-	this.saveModifiedHistory()
 	this.historyPointer--
 	CmdKillWholeLine.Func(ctx, this)
 	if s := this.getHistory(); s != "" {
-- 
2.43.0


From 65a8a7dc56ccb081bd42210e8467bde313534f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:33 +0000
Subject: [PATCH 04/35] fix: forget an edit of a history entry when its text is
 restored

An entry edited, left, and then edited back to its original text was
shown with the outdated edit when it was visited again.
---
 history.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/history.go b/history.go
index 11a14ea..2e2d619 100644
--- a/history.go
+++ b/history.go
@@ -25,6 +25,7 @@ var CmdPreviousHistory = NewGoCommand("PREVIOUS_HISTORY", cmdPreviousHistory)
 func (B *Buffer) saveModifiedHistory() {
 	s := B.String()
 	if B.historyPointer < B.History.Len() && B.History.At(B.historyPointer) == s {
+		delete(B.modifiedHistory, B.historyPointer)
 		return
 	}
 	if B.modifiedHistory == nil {
-- 
2.43.0


From 462cf12c5c46d2a4daf10d24b6e2db4f85f362d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:36 +0000
Subject: [PATCH 05/35] fix: make undo take back exactly one edit

Inserting text could be merged into the undo record of an unrelated
earlier deletion, and recalling a history entry was recorded as two
edits. One undo now takes back one command.
---
 history.go  | 2 ++
 isearch.go  | 9 +--------
 repaints.go | 7 +++++--
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/history.go b/history.go
index 2e2d619..36c4a50 100644
--- a/history.go
+++ b/history.go
@@ -60,6 +60,7 @@ func cmdPreviousHistory(ctx context.Context, this *Buffer) Result {
 	CmdKillWholeLine.Func(ctx, this)
 	if s := this.getHistory(); s != "" {
 		this.InsertString(0, s)
+		this.joinUndo() // merge kill and insert
 		this.ViewStart = 0
 		this.Cursor = 0
 		CmdEndOfLine.Func(ctx, this)
@@ -82,6 +83,7 @@ func cmdNextHistory(ctx context.Context, this *Buffer) Result {
 	CmdKillWholeLine.Func(ctx, this)
 	if s := this.getHistory(); s != "" {
 		this.InsertString(0, s)
+		this.joinUndo() // merge kill and insert
 		this.ViewStart = 0
 		this.Cursor = 0
 		CmdEndOfLine.Func(ctx, this)
diff --git a/isearch.go b/isearch.go
index 6f1f11d..041fd64 100644
--- a/isearch.go
+++ b/isearch.go
@@ -71,14 +71,7 @@ func cmdISearchBackward(ctx context.Context, this *Buffer) Result {
 			searchStr = searchBuf.String()
 			update()
 		case "\r":
-			this.ViewStart = 0
-			u := &_Undo{
-				pos:  0,
-				text: copyCells(this.Buffer),
-			}
-			this.undoes = append(this.undoes, u)
-			this.Buffer = this.Buffer[:0]
-			this.Cursor = 0
+			this.Cursor = len(this.Buffer)
 			this.ReplaceAndRepaint(0, foundStr)
 			return CONTINUE
 		case "\x03", "\x07", "\x1B":
diff --git a/repaints.go b/repaints.go
index 36151a8..5461dea 100644
--- a/repaints.go
+++ b/repaints.go
@@ -88,11 +88,14 @@ func (B *Buffer) DrawFromHead() {
 // ReplaceAndRepaint replaces the string between `pos` and cursor's position to `str`
 func (B *Buffer) ReplaceAndRepaint(pos int, str string) {
 	// Replace Buffer
-	B.Delete(pos, B.Cursor-pos)
+	n := B.Cursor - pos
+	B.Delete(pos, n)
 
 	// Define ViewStart , Cursor
 	B.Cursor = pos + B.InsertString(pos, str)
-	B.joinUndo() // merge delete and insert
+	if n > 0 {
+		B.joinUndo() // merge delete and insert
+	}
 	B.ResetViewStart()
 	B.repaint()
 }
-- 
2.43.0


From 530566c07e5cbbfc16f1f8c856624931489e9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:29 +0000
Subject: [PATCH 06/35] fix: join characters only with U+200D and a displayable
 right side

A zero width joiner at the end of a text swallowed nothing but still
produced U+FFFD, a zero width non-joiner was replaced by a joiner, and
a control character after a joiner was sent to the terminal as it is.
---
 internal/moji/moji.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 8b5a5bd..e624266 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -2,7 +2,6 @@ package moji
 
 import (
 	"io"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -138,7 +137,7 @@ func (s _VariationSequence) PrintTo(w io.Writer) {
 const zeroWidthJoinRune = '\u200D'
 
 func isZeroWidthJoin(r rune) bool {
-	return ZeroWidthJoinSequenceOk && unicode.Is(unicode.Join_Control, r)
+	return ZeroWidthJoinSequenceOk && r == zeroWidthJoinRune
 }
 
 func AreZeroWidthJoin(s string) bool {
@@ -149,6 +148,17 @@ func AreZeroWidthJoin(s string) bool {
 	return isZeroWidthJoin(r)
 }
 
+// isJoinedTo returns true when the first character of s is displayed as it is,
+// so that it can be the right side of a zero width join sequence.
+func isJoinedTo(s string) bool {
+	if len(s) <= 0 {
+		return false
+	}
+	r, _ := utf8.DecodeRuneInString(s)
+	_, ok := rune2moji(r, 0).(_RawCodePoint)
+	return ok
+}
+
 func StringToMoji(s string) []Moji {
 	mojis := make([]Moji, 0, len(s))
 	var last Moji
@@ -158,7 +168,7 @@ func StringToMoji(s string) []Moji {
 		s = s[size:]
 
 		if last != nil {
-			if isZeroWidthJoin(r) {
+			if isZeroWidthJoin(r) && isJoinedTo(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
@@ -192,7 +202,7 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		s = s[size:]
 
 		if last != nil {
-			if isZeroWidthJoin(r) {
+			if isZeroWidthJoin(r) && isJoinedTo(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
-- 
2.43.0


From 9cd9bc4476c73e8716f94fe87ec23e8a95a4d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:31 +0000
Subject: [PATCH 07/35] fix: do not join combining characters to control
 characters

Sequences are written to the terminal without notation. With a control
character as base the raw control code reached the terminal.
---
 internal/moji/moji.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index e624266..2f9b0f7 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -148,6 +148,17 @@ func AreZeroWidthJoin(s string) bool {
 	return isZeroWidthJoin(r)
 }
 
+// isJoinable returns false for the characters displayed in a notation like ^X
+// or <XXXX>. They are not the base of a sequence.
+func isJoinable(m Moji) bool {
+	switch m.(type) {
+	case nil, *Tab, _CtrlCodePoint, _EscCodePoint:
+		return false
+	default:
+		return true
+	}
+}
+
 // isJoinedTo returns true when the first character of s is displayed as it is,
 // so that it can be the right side of a zero width join sequence.
 func isJoinedTo(s string) bool {
@@ -167,7 +178,7 @@ func StringToMoji(s string) []Moji {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
+		if isJoinable(last) {
 			if isZeroWidthJoin(r) && isJoinedTo(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
@@ -201,7 +212,7 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 		r, size := utf8.DecodeRuneInString(s)
 		s = s[size:]
 
-		if last != nil {
+		if isJoinable(last) {
 			if isZeroWidthJoin(r) && isJoinedTo(s) {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
-- 
2.43.0


From 6b5bd6fbe81c76d1e3c247c94838ad35af4a3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:34 +0000
Subject: [PATCH 08/35] fix: count the width of joined characters before a tab

The column of a tab ignored what combining characters add to the width
of the character before it.
---
 internal/moji/moji.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index 2f9b0f7..aa042c4 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -183,17 +183,23 @@ func StringToMoji(s string) []Moji {
 				next, nextsize := utf8.DecodeRuneInString(s)
 				s = s[nextsize:]
 
+				pos -= int(last.Width())
 				last = _ZeroWidthJoinSequence([...]Moji{last, _RawCodePoint(next)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
 			if isVariationSelectorLike(r) {
+				pos -= int(last.Width())
 				last = _VariationSequence([...]Moji{last, _RawCodePoint(r)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
 			if isEmojiModifier(r) {
+				pos -= int(last.Width())
 				last = _ModifierSequence([...]Moji{last, _RawCodePoint(r)})
+				pos += int(last.Width())
 				mojis[len(mojis)-1] = last
 				continue
 			}
-- 
2.43.0


From 17b5e8172f8bda2e9e47c066b27fb931acb6fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:37 +0000
Subject: [PATCH 09/35] fix: allow tabs beyond column 32767

The column of a tab was kept in 16 bits. In a very long line it became
negative and drawing the tab panicked.
---
 buffer.go                  | 2 +-
 internal/moji/codepoint.go | 6 +++---
 repaints.go                | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/buffer.go b/buffer.go
index cc32933..59f075c 100644
--- a/buffer.go
+++ b/buffer.go
@@ -23,7 +23,7 @@ func copyCells(cells []Cell) []Cell {
 type Cell struct {
 	Moji     Moji
 	color    ColorSequence
-	position int16
+	position int
 }
 
 func (C Cell) String() string {
diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index cbb3c04..aa691cf 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -8,7 +8,7 @@ import (
 )
 
 type Tab struct {
-	pos int16
+	pos int
 }
 
 func (t *Tab) Width() WidthT {
@@ -24,7 +24,7 @@ func (t *Tab) WriteTo(w io.Writer) (int64, error) {
 	return int64(n), err
 }
 
-func (t *Tab) SetPosition(pos int16) {
+func (t *Tab) SetPosition(pos int) {
 	t.pos = pos
 }
 
@@ -127,7 +127,7 @@ const (
 
 func rune2moji(ch rune, pos int) Moji {
 	if ch == '\t' {
-		return &Tab{pos: int16(pos)}
+		return &Tab{pos: pos}
 	} else if ch < ' ' {
 		return _CtrlCodePoint(ch)
 	} else if boxDrawingBegin <= ch && ch <= boxDrawingEnd && AmbiguousIsWide {
diff --git a/repaints.go b/repaints.go
index 5461dea..7752d9e 100644
--- a/repaints.go
+++ b/repaints.go
@@ -14,7 +14,7 @@ const (
 
 func (B *Buffer) refreshColor() ColorSequence {
 	defaultColor := B.Coloring.Init()
-	position := int16(0)
+	position := 0
 	var tmpbuf strings.Builder
 	for i, cell := range B.Buffer {
 		if i == B.Cursor {
@@ -35,7 +35,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 			B.Buffer[i].color = cs
 			tmpbuf.Reset()
 		}
-		position += int16(cell.Moji.Width())
+		position += int(cell.Moji.Width())
 	}
 	if len(B.Buffer) == B.Cursor {
 		B.Coloring.Next(CursorPositionDummyRune)
-- 
2.43.0


From 2ae04283458b414166ccf613484ddb779d89df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:39 +0000
Subject: [PATCH 10/35] fix: escape enclosing marks on terminals without
 variation sequences

On such terminals an enclosing mark was sent as it is, and combined
with the character before it although one column was counted for it.
---
 internal/moji/width.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/moji/width.go b/internal/moji/width.go
index 834581b..110f186 100644
--- a/internal/moji/width.go
+++ b/internal/moji/width.go
@@ -38,14 +38,15 @@ func lenEscaped(c rune) WidthT {
 	return w
 }
 
-func isVariationSelectorLike(ch rune) bool {
-	if !VariationSequenceOk {
-		return false
-	}
+func hasVariationSelectorProperty(ch rune) bool {
 	return unicode.Is(unicode.Variation_Selector, ch) ||
 		unicode.Is(unicode.Me, ch)
 }
 
+func isVariationSelectorLike(ch rune) bool {
+	return VariationSequenceOk && hasVariationSelectorProperty(ch)
+}
+
 func AreVariationSelectorLike(s string) bool {
 	if !VariationSequenceOk {
 		return false
@@ -55,7 +56,7 @@ func AreVariationSelectorLike(s string) bool {
 }
 
 func isToBeEscaped(ch rune) bool {
-	return isVariationSelectorLike(ch) ||
+	return hasVariationSelectorProperty(ch) ||
 		(ch >= 0x10000 && !SurrogatePairOk) ||
 		getWidth(ch) == 0
 }
-- 
2.43.0


From 7a16f783ef1bd77ffe8ed01e177d04d5857e92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:42 +0000
Subject: [PATCH 11/35] fix: place the cursor after a modified character of
 uncertain width

The editor counts two columns for such a base character and places the
cursor explicitly, but not when an emoji modifier followed it.
---
 internal/moji/moji.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index aa042c4..b629fa0 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -86,7 +86,30 @@ func (s _ModifierSequence) WriteTo(w io.Writer) (int64, error) {
 	return n1 + n2, err
 }
 
+// isFlagBased returns true when the column count of m on the terminal is
+// unknown, so that the cursor has to be placed explicitly after it.
+func isFlagBased(m Moji) bool {
+	switch m := m.(type) {
+	case _WavingWhiteFlagCodePoint:
+		return true
+	case _ZeroWidthJoinSequence:
+		return isFlagBased(m[0])
+	case _ModifierSequence:
+		return isFlagBased(m[0])
+	case _VariationSequence:
+		return isFlagBased(m[0])
+	default:
+		return false
+	}
+}
+
 func (s _ModifierSequence) PrintTo(w io.Writer) {
+	if isFlagBased(s[0]) {
+		saveCursorAfterN(w, s.Width())
+		s.WriteTo(w)
+		restoreCursor(w)
+		return
+	}
 	s.WriteTo(w)
 }
 
-- 
2.43.0


From 1f913bd5f48e8d44a802659bac8090005f7d343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:41 +0000
Subject: [PATCH 12/35] fix: keep the cursor inside the view

The start of the view could pass the cursor when a character was wider
than the view or the terminal was narrow, and the width of tabs was
measured with outdated columns. Both ended in a panic or in a cursor
drawn at a wrong place. Repainting now makes sure that the view
contains the cursor.
---
 buffer.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/buffer.go b/buffer.go
index 59f075c..2dd1014 100644
--- a/buffer.go
+++ b/buffer.go
@@ -97,7 +97,32 @@ func (B *Buffer) getView() (_Range, WidthT) {
 	return view, w
 }
 
+// updateTabs gives tabs the columns where they are now.
+func (B *Buffer) updateTabs() {
+	position := 0
+	for _, cell := range B.Buffer {
+		if tab, ok := cell.Moji.(*moji.Tab); ok {
+			tab.SetPosition(position)
+		}
+		position += int(cell.Moji.Width())
+	}
+}
+
+// scrollToCursor moves ViewStart if the cursor would be out of the view.
+func (B *Buffer) scrollToCursor() {
+	B.updateTabs()
+	if B.ViewStart > B.Cursor {
+		B.ViewStart = B.Cursor
+	}
+	w := B.GetWidthBetween(B.ViewStart, B.Cursor)
+	for B.ViewStart < B.Cursor && w >= B.ViewWidth() {
+		w -= B.Buffer[B.ViewStart].Moji.Width()
+		B.ViewStart++
+	}
+}
+
 func (B *Buffer) getView2() (all _Range, before _Range, w WidthT) {
+	B.scrollToCursor()
 	v, w := B.getView()
 	x := B.Cursor - B.ViewStart
 	return v, v[:x], w
@@ -155,14 +180,11 @@ func (B *Buffer) Delete(pos int, n int) WidthT {
 // It does not update screen.
 func (B *Buffer) ResetViewStart() {
 	B.ViewStart = 0
+	B.updateTabs()
 	w := WidthT(0)
 	for i := 0; i <= B.Cursor && i < len(B.Buffer); i++ {
 		w += B.Buffer[i].Moji.Width()
-		for w >= B.ViewWidth() {
-			if B.ViewStart >= len(B.Buffer) {
-				// When standard output is redirected.
-				return
-			}
+		for w >= B.ViewWidth() && B.ViewStart < B.Cursor {
 			w -= B.Buffer[B.ViewStart].Moji.Width()
 			B.ViewStart++
 		}
-- 
2.43.0


From 35b0c449cd3830f46219af15033dfccc00e7b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:59 +0000
Subject: [PATCH 13/35] fix: repaint the line after moving forward

Moving forward drew only the characters passed, with the colours and
the column of the old cursor. Text right of the view stayed hidden,
remains of wide characters stayed visible, the end of the line could
not be reached on a narrow terminal, and syntax colouring was not told
where the cursor is. These commands now repaint like those that move
backward.
---
 gommand.go | 59 +++++++-----------------------------------------------
 1 file changed, 7 insertions(+), 52 deletions(-)

diff --git a/gommand.go b/gommand.go
index f54819d..81be608 100644
--- a/gommand.go
+++ b/gommand.go
@@ -90,29 +90,8 @@ func cmdBackwardChar(ctx context.Context, this *Buffer) Result {
 var CmdEndOfLine = NewGoCommand("END_OF_LINE", cmdEndOfLine)
 
 func cmdEndOfLine(ctx context.Context, this *Buffer) Result {
-	allength := this.GetWidthBetween(this.ViewStart, len(this.Buffer))
-	if allength < this.ViewWidth() {
-		this.puts(this.Buffer[this.Cursor:])
-		this.Cursor = len(this.Buffer)
-	} else {
-		this.GotoHead()
-		this.ViewStart = len(this.Buffer) - 1
-		w := this.Buffer[this.ViewStart].Moji.Width()
-		for {
-			if this.ViewStart <= 0 {
-				break
-			}
-			_w := w + this.Buffer[this.ViewStart-1].Moji.Width()
-			if _w >= this.ViewWidth() {
-				break
-			}
-			w = _w
-			this.ViewStart--
-		}
-		this.puts(this.Buffer[this.ViewStart:])
-		this.Cursor = len(this.Buffer)
-	}
-	this.eraseline()
+	this.Cursor = len(this.Buffer)
+	this.repaint()
 	return CONTINUE
 }
 
@@ -130,21 +109,8 @@ func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 		}
 		return CONTINUE
 	}
-	w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
-	if w < this.ViewWidth() {
-		// No Scroll
-		this.puts(this.Buffer[this.Cursor : this.Cursor+1])
-	} else {
-		// Right Scroll
-		this.GotoHead()
-		if this.Buffer[this.Cursor].Moji.Width() > this.Buffer[this.ViewStart].Moji.Width() {
-			this.ViewStart++
-		}
-		this.ViewStart++
-		this.puts(this.Buffer[this.ViewStart : this.Cursor+1])
-		this.eraseline()
-	}
 	this.Cursor++
+	this.repaint()
 	return CONTINUE
 }
 
@@ -368,9 +334,6 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 		this.Buffer[this.Cursor-2], this.Buffer[this.Cursor-1] = this.Buffer[this.Cursor-1], this.Buffer[this.Cursor-2]
-
-		this.GotoHead()
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	} else {
 		if this.Cursor < 1 {
 			return CONTINUE
@@ -382,15 +345,10 @@ func cmdSwapChar(ctx context.Context, this *Buffer) Result {
 		}
 		this.undoes = append(this.undoes, u)
 
-		w := this.GetWidthBetween(this.ViewStart, this.Cursor+1)
 		this.Buffer[this.Cursor-1], this.Buffer[this.Cursor] = this.Buffer[this.Cursor], this.Buffer[this.Cursor-1]
-		this.GotoHead()
-		if w >= this.ViewWidth() {
-			this.ViewStart++
-		}
 		this.Cursor++
-		this.puts(this.Buffer[this.ViewStart:this.Cursor])
 	}
+	this.repaint()
 	return CONTINUE
 }
 
@@ -425,14 +383,11 @@ func cmdForwardWord(ctx context.Context, this *Buffer) Result {
 		newPos++
 	}
 	w := this.GetWidthBetween(this.ViewStart, newPos)
-	if w < this.ViewWidth() {
-		this.puts(this.Buffer[this.Cursor:newPos])
-		this.Cursor = newPos
-	} else {
-		this.Cursor = newPos
+	this.Cursor = newPos
+	if w >= this.ViewWidth() {
 		this.ResetViewStart()
-		this.repaint()
 	}
+	this.repaint()
 	return CONTINUE
 }
 
-- 
2.43.0


From 0d4dccb45ddff6c95b417b5eba92464fab6f1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:17 +0000
Subject: [PATCH 14/35] fix: treat tabs as blanks and joined characters as part
 of words

Word commands took a tab for a word character, and a word that starts
with a joined character was taken to start after it.
---
 buffer.go                  | 2 ++
 internal/moji/codepoint.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/buffer.go b/buffer.go
index 2dd1014..ccfccc1 100644
--- a/buffer.go
+++ b/buffer.go
@@ -227,6 +227,8 @@ func (B *Buffer) CurrentWordTop() (wordTop int) {
 			} else if wordTop < 0 {
 				wordTop = i
 			}
+		} else if wordTop < 0 {
+			wordTop = i
 		}
 	}
 	if wordTop < 0 {
diff --git a/internal/moji/codepoint.go b/internal/moji/codepoint.go
index aa691cf..dbb56ac 100644
--- a/internal/moji/codepoint.go
+++ b/internal/moji/codepoint.go
@@ -147,6 +147,8 @@ func rune2moji(ch rune, pos int) Moji {
 
 func MojiToRune(m Moji) (rune, bool) {
 	switch r := m.(type) {
+	case *Tab:
+		return '\t', true
 	case _RawCodePoint:
 		return rune(r), true
 	case _CtrlCodePoint:
-- 
2.43.0


From 2c3da920e1f14f70d38b064da030e42a035b025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:20 +0000
Subject: [PATCH 15/35] fix: accept the prediction for the current line only

After commands that do not repaint, such as killing the line, moving
forward inserted the prediction for an earlier text.
---
 gommand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gommand.go b/gommand.go
index 81be608..91f0d5d 100644
--- a/gommand.go
+++ b/gommand.go
@@ -100,6 +100,7 @@ var CmdForwardChar = NewGoCommand("FORWARD_CHAR", cmdForwardChar)
 
 func cmdForwardChar(ctx context.Context, this *Buffer) Result {
 	if this.Cursor >= len(this.Buffer) {
+		this.updateSuffix()
 		if len(this.suffix) > 0 {
 			var s strings.Builder
 			for _, c := range this.suffix {
-- 
2.43.0


From bc8c491e322b470951f23f83a95e24c8427dd114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:22 +0000
Subject: [PATCH 16/35] fix: never hide a typed joiner and the character before
 it

Typing a zero width joiner removed the character before the cursor and
kept it in a hidden buffer until the next character was typed. Any
other command in between, such as Enter or a cursor movement, lost the
character or moved it elsewhere.
---
 buffer.go  |  1 -
 gommand.go | 46 +++++++++++++++++++---------------------------
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/buffer.go b/buffer.go
index ccfccc1..53354c1 100644
--- a/buffer.go
+++ b/buffer.go
@@ -42,7 +42,6 @@ type Buffer struct {
 	topColumn       int // == width of Prompt
 	historyPointer  int
 	undoes          []*_Undo
-	pending         string
 	modifiedHistory map[int]string
 }
 
diff --git a/gommand.go b/gommand.go
index 91f0d5d..2ef353e 100644
--- a/gommand.go
+++ b/gommand.go
@@ -149,13 +149,6 @@ func cmdDeleteOrAbort(ctx context.Context, this *Buffer) Result {
 	return ABORT
 }
 
-func mojiAndStringToString(m Moji, s string) string {
-	var buffer strings.Builder
-	m.WriteTo(&buffer)
-	buffer.WriteString(s)
-	return buffer.String()
-}
-
 type SelfInserter string
 
 func (s SelfInserter) String() string {
@@ -167,27 +160,26 @@ func (s SelfInserter) Call(ctx context.Context, this *Buffer) Result {
 	if len(keys) == 2 && keys[0] == '\x1B' { // for AltGr-shift
 		keys = keys[1:]
 	}
-	if moji.AreZeroWidthJoin(keys) && this.Cursor > 0 {
-		this.pending = mojiAndStringToString(
-			this.Buffer[this.Cursor-1].Moji,
-			keys)
-		return CmdBackwardDeleteChar.Func(ctx, this)
-	} else if (moji.AreVariationSelectorLike(keys) || moji.AreEmojiModifier(keys)) && this.Cursor > 0 {
-		baseMoji := this.Buffer[this.Cursor-1].Moji
-		CmdBackwardDeleteChar.Func(ctx, this)
-		keys = mojiAndStringToString(baseMoji, keys)
-	} else if len(this.pending) > 0 {
-		keys = this.pending + keys
-		this.pending = ""
+	start := this.Cursor
+	if moji.AreZeroWidthJoin(keys) || moji.AreVariationSelectorLike(keys) || moji.AreEmojiModifier(keys) {
+		if start > 0 {
+			start--
+		}
+	} else if start > 1 && moji.AreZeroWidthJoin(this.Buffer[start-1].String()) {
+		start -= 2
 	}
-
-	mojis := this.insertString(this.Cursor, keys)
-	lenMoji := len(mojis)
-
-	w := this.GetWidthBetween(this.ViewStart, this.Cursor)
-	w1 := mojis.Width()
-	this.Cursor += lenMoji
-	if w+w1 >= this.ViewWidth() {
+	n := this.Cursor - start
+	keys = this.SubString(start, this.Cursor) + keys
+	this.Delete(start, n)
+	this.Cursor = start + this.InsertString(start, keys)
+	if n > 0 {
+		this.joinUndo() // merge delete and insert
+	}
+	if start < this.ViewStart {
+		this.ViewStart = start
+	}
+	this.updateTabs()
+	if this.GetWidthBetween(this.ViewStart, this.Cursor) >= this.ViewWidth() {
 		// scroll left
 		this.ResetViewStart()
 	}
-- 
2.43.0


From d609f876f8818766a7c226ebaec5e589a0d46f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:32 +0000
Subject: [PATCH 17/35] fix: feed syntax colouring with the text of joined
 characters

For joined characters the colouring was fed with the bytes drawn on the
terminal, including blanks, backspaces and escape sequences.
---
 repaints.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repaints.go b/repaints.go
index 7752d9e..b783198 100644
--- a/repaints.go
+++ b/repaints.go
@@ -27,7 +27,7 @@ func (B *Buffer) refreshColor() ColorSequence {
 		} else if codepoint, ok := moji.MojiToRune(cell.Moji); ok {
 			B.Buffer[i].color = ColorSequence(B.Coloring.Next(codepoint))
 		} else {
-			cell.Moji.PrintTo(&tmpbuf)
+			cell.Moji.WriteTo(&tmpbuf)
 			var cs ColorSequence
 			for _, c := range tmpbuf.String() {
 				cs = ColorSequence(B.Coloring.Next(c))
-- 
2.43.0


From daea33377976e5b1979fab157dc8f9d88d425b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:43 +0000
Subject: [PATCH 18/35] fix: count all bytes and report errors in
 ColorSequence.WriteTo

The two bytes of the introducer were not counted and a failed write was
forgotten.
---
 color.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/color.go b/color.go
index 642dd0f..40848eb 100644
--- a/color.go
+++ b/color.go
@@ -102,15 +102,18 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 	if c <= 0 {
 		return 0, nil
 	}
-	n := int64(0)
-	io.WriteString(w, "\x1B[")
+	n0, err := io.WriteString(w, "\x1B[")
+	n := int64(n0)
+	if err != nil {
+		return n, err
+	}
 	count := c & colorCodeMask
 	for {
 		c >>= colorCodeBitSize
 		_n, err := fmt.Fprintf(w, "%d", c&colorCodeMask)
 		n += int64(_n)
 		if err != nil {
-			break
+			return n, err
 		}
 		count--
 		if count <= 0 {
@@ -119,7 +122,7 @@ func (c ColorSequence) WriteTo(w io.Writer) (int64, error) {
 		_n, err = w.Write([]byte{';'})
 		n += int64(_n)
 		if err != nil {
-			break
+			return n, err
 		}
 	}
 	_n, err := w.Write([]byte{'m'})
-- 
2.43.0


From ce7d02db13d6f0850cd24c9d61aa96299d23bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:07 +0000
Subject: [PATCH 19/35] fix: recognize all forms of escape sequences in the
 prompt

A title sequence ended by ESC \, a sequence like ESC 7, and a control
sequence not ended by a letter made the editor ignore the text behind
them, so that editing started at a wrong column.
---
 main.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/main.go b/main.go
index 93af8e4..abbb89b 100644
--- a/main.go
+++ b/main.go
@@ -80,27 +80,33 @@ func (editor *Editor) LookupCommand(key string) Command {
 
 func cutEscapeSequenceAndOldLine(s string) string {
 	buffer := make([]byte, 0, len(s)*2)
-	esc := false           // for ESC[...
-	titleSequence := false // for ESC]...\x07
+	esc := false           // for ESC...
+	csi := false           // for ESC[...
+	titleSequence := false // for ESC]...\x07 or ESC]...ESC\
 	for i, end := 0, len(s); i < end; i++ {
 		r := s[i]
 		switch r {
 		case '\r', '\n':
 			buffer = buffer[:0]
 		case '\x1B':
-			esc = true
+			if !titleSequence {
+				esc = true
+				csi = false
+			} else if i+1 < end && s[i+1] == '\\' {
+				titleSequence = false
+				i++
+			}
 		default:
 			if titleSequence {
 				if r == '\007' {
 					titleSequence = false
-					esc = false
 				}
+			} else if csi {
+				csi = r < '@' || '~' < r
 			} else if esc {
-				if r == ']' {
-					titleSequence = true
-				} else if ('A' <= r && r <= 'Z') || ('a' <= r && r <= 'z') {
-					esc = false
-				}
+				csi = r == '['
+				titleSequence = r == ']'
+				esc = ' ' <= r && r <= '/'
 			} else if r == '\b' {
 				if lastRune, siz := utf8.DecodeLastRune(buffer); lastRune != utf8.RuneError {
 					buffer = buffer[:len(buffer)-siz]
-- 
2.43.0


From a19fa94144e3386424ff4f6ed368a91fc352f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:09 +0000
Subject: [PATCH 20/35] fix: edit on a new row when the prompt repainted is too
 wide

ReadLine does so when it starts. Clearing the screen did not, and left
no room to show the line.
---
 repaints.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repaints.go b/repaints.go
index b783198..c49f2c0 100644
--- a/repaints.go
+++ b/repaints.go
@@ -110,6 +110,11 @@ func (B *Buffer) RepaintAfterPrompt() {
 func (B *Buffer) RepaintAll() {
 	B.Out.Flush()
 	B.topColumn, _ = B.callPromptWriter()
+	if B.topColumn >= B.termWidth-3 {
+		// ViewWidth is too narrow to edit.
+		io.WriteString(B.Out, "\n")
+		B.topColumn = 0
+	}
 	B.repaint()
 }
 
-- 
2.43.0


From 5d751eda355c3ae7ec9ccf49c4e87ec687a612ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:06 +0000
Subject: [PATCH 21/35] fix: let resizing share the screen with the editor
 safely

The editor painted the prompt and flushed its output without the lock
that the resize handler takes, the handler did not flush what it had
drawn, it painted before the prompt existed, and it still painted after
ReadLine had returned. A panicking command left the lock taken.
---
 main.go | 102 +++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 67 insertions(+), 35 deletions(-)

diff --git a/main.go b/main.go
index abbb89b..5a2c6dd 100644
--- a/main.go
+++ b/main.go
@@ -178,48 +178,73 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 		suffix:         nil, // moji.StringToMoji("$"),
 	}
 
+	started := false
+	finished := false
+	resizedWidth := 0
+
 	onResize := func(w int) {
 		editor.mutex.Lock()
+		defer editor.mutex.Unlock()
+		if finished {
+			return
+		}
+		if !started {
+			resizedWidth = w
+			return
+		}
 		buffer.termWidth = w
 		buffer.ResetViewStart()
 		buffer.RepaintLastLine()
-		editor.mutex.Unlock()
+		buffer.Out.Flush()
 	}
 
 	if err := editor.Tty.Open(onResize); err != nil {
 		return "", err
 	}
-	defer editor.Tty.Close()
+	defer func() {
+		editor.mutex.Lock()
+		finished = true
+		editor.mutex.Unlock()
+		editor.Tty.Close()
+	}()
 
-	var err error
-	buffer.termWidth, _, err = editor.Tty.Size()
+	termWidth, _, err := editor.Tty.Size()
 	if err != nil {
 		return "", err
 	}
+	start := func() {
+		editor.mutex.Lock()
+		defer editor.mutex.Unlock()
 
-	buffer.topColumn, err = editor.callPromptWriter()
-	if err != nil {
-		// unable to get prompt-string.
-		fmt.Fprintf(buffer.Out, "%s\n$ ", err.Error())
-		buffer.topColumn = 2
-	} else if buffer.topColumn >= buffer.termWidth-3 {
-		// ViewWidth is too narrow to edit.
-		io.WriteString(buffer.Out, "\n")
-		buffer.topColumn = 0
-	}
-	buffer.InsertString(0, editor.Default)
-	if buffer.Cursor > len(buffer.Buffer) {
-		buffer.Cursor = len(buffer.Buffer)
-	}
-	buffer.RepaintAfterPrompt()
-
-	io.WriteString(buffer.Out, ansiCursorOn)
-	for {
-		key, err := buffer.GetKey()
+		buffer.termWidth = termWidth
+		if resizedWidth > 0 {
+			buffer.termWidth = resizedWidth
+		}
+		buffer.topColumn, err = editor.callPromptWriter()
 		if err != nil {
-			return "", err
+			// unable to get prompt-string.
+			fmt.Fprintf(buffer.Out, "%s\n$ ", err.Error())
+			buffer.topColumn = 2
+		} else if buffer.topColumn >= buffer.termWidth-3 {
+			// ViewWidth is too narrow to edit.
+			io.WriteString(buffer.Out, "\n")
+			buffer.topColumn = 0
 		}
+		buffer.InsertString(0, editor.Default)
+		if buffer.Cursor > len(buffer.Buffer) {
+			buffer.Cursor = len(buffer.Buffer)
+		}
+		buffer.RepaintAfterPrompt()
+
+		io.WriteString(buffer.Out, ansiCursorOn)
+		buffer.Out.Flush()
+		started = true
+	}
+	start()
+
+	call := func(key string) (Result, string) {
 		editor.mutex.Lock()
+		defer editor.mutex.Unlock()
 
 		f := editor.LookupCommand(key)
 
@@ -239,18 +264,25 @@ func (editor *Editor) ReadLine(ctx context.Context) (string, error) {
 			} else {
 				buffer.Out.WriteByte('\n')
 			}
-			buffer.Out.Flush()
+			finished = true
+		}
+		buffer.Out.Flush()
+		return rc, buffer.String()
+	}
 
-			result := buffer.String()
-			editor.mutex.Unlock()
-			if rc == ENTER {
-				return result, nil
-			} else if rc == INTR {
-				return result, CtrlC
-			} else {
-				return result, io.EOF
-			}
+	for {
+		key, err := editor.Tty.GetKey()
+		if err != nil {
+			return "", err
+		}
+		switch rc, result := call(key); rc {
+		case CONTINUE:
+		case ENTER:
+			return result, nil
+		case INTR:
+			return result, CtrlC
+		default:
+			return result, io.EOF
 		}
-		editor.mutex.Unlock()
 	}
 }
-- 
2.43.0


From 20ebad310b1a1ecc984d7134936ec7e0f75ad188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 22/35] fix: compare completion candidates by characters, not
 by bytes

Upper and lower case letters may differ in size. A common prefix was
cut in the middle of a character or panicked, and candidates were
rejected although they match.
---
 completion/file.go |  5 +----
 completion/main.go | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/completion/file.go b/completion/file.go
index e5e0ff9..c2b75a0 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -64,10 +64,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			if name == "." || name == ".." {
 				continue
 			}
-			if len(name) < len(base) {
-				continue
-			}
-			if !strings.EqualFold(base, name[:len(base)]) {
+			if !hasPrefixFold(name, base) {
 				continue
 			}
 			// Do not use filepath.Join because it removes "./"
diff --git a/completion/main.go b/completion/main.go
index 541ccaf..ff14b0d 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -3,7 +3,7 @@ package completion
 import (
 	"context"
 	"strings"
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/nyaosorg/go-box/v2"
 	rl "github.com/nyaosorg/go-readline-ny"
@@ -20,6 +20,7 @@ func commonPrefix(list []string) string {
 		return ""
 	}
 	common := list[0]
+	commonLength := utf8.RuneCountInString(common)
 	var cr, fr *strings.Reader
 	// to make English case of completed word to the shortest candidate
 	minimumLength := len(list[0])
@@ -43,19 +44,34 @@ func commonPrefix(list []string) string {
 				break
 			}
 			fh, _, err := fr.ReadRune()
-			if err != nil || unicode.ToUpper(ch) != unicode.ToUpper(fh) {
+			if err != nil || !strings.EqualFold(string(ch), string(fh)) {
 				break
 			}
 			buffer.WriteRune(ch)
 			i++
 		}
 		common = buffer.String()
+		commonLength = i
 		if len(f) < minimumLength {
 			minimumLength = len(f)
 			minimumIndex = index + 1
 		}
 	}
-	return list[minimumIndex][:len(common)]
+	return list[minimumIndex][:sizeOfRunes(list[minimumIndex], commonLength)]
+}
+
+// sizeOfRunes returns the size of the first n runes of s in bytes.
+func sizeOfRunes(s string, n int) int {
+	size := 0
+	for ; n > 0; n-- {
+		_, siz := utf8.DecodeRuneInString(s[size:])
+		size += siz
+	}
+	return size
+}
+
+func hasPrefixFold(s, prefix string) bool {
+	return strings.EqualFold(prefix, s[:sizeOfRunes(s, utf8.RuneCountInString(prefix))])
 }
 
 func removeQuotes(s, q string) string {
@@ -126,7 +142,7 @@ func hasToInsertQuotation(list []string, spaceAndSoOn string) bool {
 
 func removeUnmatches(full, base []string, source string) (newFull, newBase []string) {
 	for i, name := range full {
-		if len(name) >= len(source) && strings.EqualFold(source, name[:len(source)]) {
+		if hasPrefixFold(name, source) {
 			newFull = append(newFull, name)
 			newBase = append(newBase, base[i])
 		}
-- 
2.43.0


From d5ac33eb263168d760717cd7698ee0d287710aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:15 +0000
Subject: [PATCH 23/35] fix: quote a completed word with blanks without
 delimiters too

The only candidate was inserted without quotation marks when the
completion defines no delimiters, and then was several words.
---
 completion/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/main.go b/completion/main.go
index ff14b0d..73804fb 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -170,7 +170,7 @@ func complete(quotes, del string, B *rl.Buffer, C Completion, postfix string) []
 		if strings.EqualFold(fields[len(fields)-1], str) {
 			B.Out.WriteByte('\a')
 		} else {
-			if len(quotes) > 0 && len(del) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
+			if len(quotes) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
 				str = string(quotes[0]) + str + string(quotes[0])
 			}
 			B.ReplaceAndRepaint(lastWordStart, str+postfix)
-- 
2.43.0


From 8429d8f0c22c36b542e582277807b08b45bdd6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:18 +0000
Subject: [PATCH 24/35] fix: quote completed words with the whole first
 quotation mark

Only its first byte was inserted.
---
 completion/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/completion/main.go b/completion/main.go
index 73804fb..ded0774 100644
--- a/completion/main.go
+++ b/completion/main.go
@@ -70,6 +70,10 @@ func sizeOfRunes(s string, n int) int {
 	return size
 }
 
+func firstRune(s string) string {
+	return s[:sizeOfRunes(s, 1)]
+}
+
 func hasPrefixFold(s, prefix string) bool {
 	return strings.EqualFold(prefix, s[:sizeOfRunes(s, utf8.RuneCountInString(prefix))])
 }
@@ -171,7 +175,8 @@ func complete(quotes, del string, B *rl.Buffer, C Completion, postfix string) []
 			B.Out.WriteByte('\a')
 		} else {
 			if len(quotes) > 0 && strings.ContainsAny(str, " \t\r\n\v\f"+del) {
-				str = string(quotes[0]) + str + string(quotes[0])
+				q := firstRune(quotes)
+				str = q + str + q
 			}
 			B.ReplaceAndRepaint(lastWordStart, str+postfix)
 		}
@@ -183,7 +188,7 @@ func complete(quotes, del string, B *rl.Buffer, C Completion, postfix string) []
 		return baselist
 	} else {
 		if len(quotes) > 0 && hasToInsertQuotation(list, " \t\r\n\v\f"+del) {
-			prefix = string(quotes[0]) + prefix
+			prefix = firstRune(quotes) + prefix
 		}
 		B.ReplaceAndRepaint(lastWordStart, prefix)
 		return nil
-- 
2.43.0


From a00938160a4e5be5b4e66ff398623b01be30802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:20 +0000
Subject: [PATCH 25/35] fix: complete an empty quoted file name

It panicked.
---
 completion/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index c2b75a0..6191f28 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -29,7 +29,9 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 	}
 	target := field[len(field)-1]
 	var dir, base string
-	if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
+	if target == "" {
+		// the current directory
+	} else if tail := target[len(target)-1]; tail == os.PathSeparator || tail == '/' {
 		base = ""
 		dir = target
 	} else {
-- 
2.43.0


From ea8b0a200347e9c07d725333e68d8940642c88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:23 +0000
Subject: [PATCH 26/35] fix: stop completing a file name at an empty directory

When the only candidate was an empty directory, it was read again and
again without end.
---
 completion/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index 6191f28..3017189 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -78,7 +78,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			fullnames = append(fullnames, full)
 			basenames = append(basenames, name)
 		}
-		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) {
+		if len(fullnames) != 1 || !strings.HasSuffix(fullnames[0], sep) || dir == fullnames[0] {
 			return
 		}
 		base = ""
-- 
2.43.0


From 5079b3eda225ca7e64bdce310ee136d1363693a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:58 +0000
Subject: [PATCH 27/35] fix: BindKeySymbol looks up the function, not the key

It failed for every key that is not also the name of a function.
---
 nameutils/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nameutils/main.go b/nameutils/main.go
index cf31273..2699bb2 100644
--- a/nameutils/main.go
+++ b/nameutils/main.go
@@ -25,7 +25,7 @@ func GetFunc(name string) (readline.Command, error) {
 }
 
 func BindKeySymbol(km *readline.KeyMap, key, funcName string) error {
-	f, err := GetFunc(key)
+	f, err := GetFunc(funcName)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2320e7a8948fad958a9c7daaed88c22ce6cc6bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:00 +0000
Subject: [PATCH 28/35] fix: key names CTRL_DOWN and M_BACKSPACE

They named the keys without the modifier.
---
 keys/naming.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keys/naming.go b/keys/naming.go
index f01d15d..d177246 100644
--- a/keys/naming.go
+++ b/keys/naming.go
@@ -9,7 +9,7 @@ var NameToCode = map[string]Code{
 	"CLEAR":       Clear,
 	"CTRL":        Ctrl,
 	"CTRL_BREAK":  CtrlBreak,
-	"CTRL_DOWN":   Down,
+	"CTRL_DOWN":   CtrlDown,
 	"C_A":         CtrlA,
 	"C_B":         CtrlB,
 	"C_C":         CtrlC,
@@ -77,7 +77,7 @@ var NameToCode = map[string]Code{
 	"LEFT":        Left,
 	"M_A":         AltA,
 	"M_B":         AltB,
-	"M_BACKSPACE": Backspace,
+	"M_BACKSPACE": ALTBackspace,
 	"M_C":         AltC,
 	"M_D":         AltD,
 	"M_E":         AltE,
-- 
2.43.0


From a8584173aa03c56e56b1f5c3185c689719bf031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:02 +0000
Subject: [PATCH 29/35] fix: tty10 joins the bytes of a character split between
 reads

Such a character was delivered as several invalid ones.
---
 tty10/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tty10/main.go b/tty10/main.go
index 9b46d6d..d7771cb 100644
--- a/tty10/main.go
+++ b/tty10/main.go
@@ -67,6 +67,14 @@ func (M *Tty) GetKey() (string, error) {
 			return "", err
 		}
 	}
+	// A character may be split between two reads.
+	for !utf8.FullRune(M.buf) {
+		more, err := M.getKey()
+		if err != nil || len(more) <= 0 {
+			return "", err
+		}
+		M.buf = append(M.buf, more...)
+	}
 	var result string
 	r, size := utf8.DecodeRune(M.buf)
 	if r == '\x1B' {
-- 
2.43.0


From 9f89e219c08267e6d7569d811714828a28803fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:55 +0000
Subject: [PATCH 30/35] fix: count the width of the prompt as it is written

Characters that the edit line shows as <XXXX> are written unchanged in the
prompt, so they must not be counted with their brackets.
---
 internal/moji/moji.go | 13 +++++++++++++
 main.go               |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index b629fa0..db69731 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -274,3 +274,16 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 	}
 	return
 }
+
+// RawWidthInString returns the columns s takes when it is written as it is
+// without replacing any characters with <XXXX>.
+func RawWidthInString(s string) (width WidthT) {
+	for _, m := range StringToMoji(s) {
+		if c, ok := m.(_EscCodePoint); ok {
+			width += getWidth(rune(c))
+		} else {
+			width += m.Width()
+		}
+	}
+	return width
+}
diff --git a/main.go b/main.go
index 5a2c6dd..b671afc 100644
--- a/main.go
+++ b/main.go
@@ -128,7 +128,7 @@ func (editor *Editor) callPromptWriter() (int, error) {
 	editor.PromptWriter(&buffer)
 	prompt := buffer.String()
 	_, err := editor.Out.WriteString(prompt)
-	w, _ := moji.MojiWidthAndCountInString(cutEscapeSequenceAndOldLine(prompt))
+	w := moji.RawWidthInString(cutEscapeSequenceAndOldLine(prompt))
 	return int(w), err
 }
 
-- 
2.43.0


From 87c82d74df41e25622bd33559427ccfe036d25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:57 +0000
Subject: [PATCH 31/35] fix: RepaintLastLine keeps a too wide prompt off other
 rows

When the prompt was so wide that the line is edited on a fresh row, or when
one of its rows is wider than the terminal, writing it on the row of the
input line wraps.
---
 repaints.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/repaints.go b/repaints.go
index c49f2c0..988edfb 100644
--- a/repaints.go
+++ b/repaints.go
@@ -131,7 +131,25 @@ func (B *Buffer) RepaintLastLine() {
 		B.PromptWriter(&buffer)
 		prompt = buffer.String()
 		prompt = strings.ReplaceAll(prompt, "\n", "\r")
+		if !B.promptFitsInRow(prompt) {
+			prompt = "\r"
+		}
 	}
 	B.Out.WriteString(prompt)
 	B.repaint()
 }
+
+// promptFitsInRow reports whether the prompt whose rows are separated with
+// CR can be written on the row of the input-line without wrapping.
+func (B *Buffer) promptFitsInRow(prompt string) bool {
+	width := 0
+	for _, row := range strings.Split(prompt, "\r") {
+		w := moji.RawWidthInString(cutEscapeSequenceAndOldLine(row))
+		width = int(w)
+		if width > B.termWidth {
+			return false
+		}
+	}
+	// The prompt too wide to edit after it is on the row above.
+	return width == 0 || B.topColumn != 0
+}
-- 
2.43.0


From a2ccd1f7c9584b05736a65c922969fd85552ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:58 +0000
Subject: [PATCH 32/35] fix: return the keys received when a burst of input
 ends with NUL

A NUL at the end of a burst made GetRawKey and GetKeys wait for more input
although complete keys had already been read.
---
 getkey.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/getkey.go b/getkey.go
index 1d4b376..251fe82 100644
--- a/getkey.go
+++ b/getkey.go
@@ -25,6 +25,12 @@ func GetKey(tty XTty) (string, error) {
 }
 
 func GetRawKey(tty XTty) (string, error) {
+	return getRawKey(tty, true)
+}
+
+// getRawKey reads one key. When *wait* is false, it returns an empty key
+// instead of waiting for the next input after NULs.
+func getRawKey(tty XTty, wait bool) (string, error) {
 	var buffer strings.Builder
 	escape := false
 	var surrogated rune = 0
@@ -34,6 +40,9 @@ func GetRawKey(tty XTty) (string, error) {
 			return "", err
 		}
 		if r == 0 {
+			if (!wait || buffer.Len() > 0) && surrogated == 0 && !tty.Buffered() {
+				return buffer.String(), nil
+			}
 			continue
 		}
 		if surrogated > 0 {
@@ -63,11 +72,13 @@ func GetKeys(tty XTty) ([]string, error) {
 	keys := []string{}
 
 	for {
-		key1, err := GetRawKey(tty)
+		key1, err := getRawKey(tty, len(keys) <= 0)
 		if err != nil {
 			return nil, err
 		}
-		keys = append(keys, key1)
+		if key1 != "" {
+			keys = append(keys, key1)
+		}
 		if !tty.Buffered() {
 			return keys, nil
 		}
-- 
2.43.0


From 553e9c07ac1f91673c5ac014d44c480d82cc5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:00 +0000
Subject: [PATCH 33/35] fix: file completion does not append a separator to
 links to files

Only directories and links to directories get the trailing separator.
---
 completion/file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/completion/file.go b/completion/file.go
index 3017189..c069ba1 100644
--- a/completion/file.go
+++ b/completion/file.go
@@ -23,6 +23,15 @@ func zeroToOneDot(d string) string {
 	return d
 }
 
+// isDir returns true when the entry is a directory or a link to a directory.
+func isDir(d os.DirEntry, path string) bool {
+	if (d.Type() & os.ModeSymlink) == 0 {
+		return d.IsDir()
+	}
+	stat, err := os.Stat(path)
+	return err == nil && stat.IsDir()
+}
+
 func (File) List(field []string) (fullnames []string, basenames []string) {
 	if len(field) <= 0 {
 		return
@@ -71,7 +80,7 @@ func (File) List(field []string) (fullnames []string, basenames []string) {
 			}
 			// Do not use filepath.Join because it removes "./"
 			full := dir + name
-			if (d.Type() & (os.ModeDir | os.ModeSymlink)) != 0 {
+			if isDir(d, full) {
 				name += sep
 				full += sep
 			}
-- 
2.43.0


From 90d676aca351ab9da82b7db800e2a69c3389a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:33 +0000
Subject: [PATCH 34/35] fix: count tabs and control characters of the prompt as
 the terminal does

---
 internal/moji/moji.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/moji/moji.go b/internal/moji/moji.go
index db69731..80081b7 100644
--- a/internal/moji/moji.go
+++ b/internal/moji/moji.go
@@ -279,9 +279,14 @@ func MojiWidthAndCountInString(s string) (width WidthT, count int) {
 // without replacing any characters with <XXXX>.
 func RawWidthInString(s string) (width WidthT) {
 	for _, m := range StringToMoji(s) {
-		if c, ok := m.(_EscCodePoint); ok {
+		switch c := m.(type) {
+		case _EscCodePoint:
 			width += getWidth(rune(c))
-		} else {
+		case *Tab:
+			width += 8 - width%8
+		case _CtrlCodePoint:
+			// The terminal does not advance the cursor.
+		default:
 			width += m.Width()
 		}
 	}
-- 
2.43.0


From 02bf3fcdb2b03e171089a8896d600983e2a6d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:29 +0000
Subject: [PATCH 35/35] fix: keep the default prompt on its row when repainting
 the last line

With no PromptWriter set, RepaintLastLine wrote the default prompt even when
the terminal was too narrow for it, so it wrapped onto another row.
---
 repaints.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repaints.go b/repaints.go
index 988edfb..2b653f3 100644
--- a/repaints.go
+++ b/repaints.go
@@ -131,9 +131,9 @@ func (B *Buffer) RepaintLastLine() {
 		B.PromptWriter(&buffer)
 		prompt = buffer.String()
 		prompt = strings.ReplaceAll(prompt, "\n", "\r")
-		if !B.promptFitsInRow(prompt) {
-			prompt = "\r"
-		}
+	}
+	if !B.promptFitsInRow(prompt) {
+		prompt = "\r"
 	}
 	B.Out.WriteString(prompt)
 	B.repaint()
-- 
2.43.0

