------------------------------ MODULE Complete ------------------------------
(***************************************************************************)
(* Word completion.  M is the configuration of the completion:             *)
(*   enc   quotation marks       del   word delimiters                     *)
(*   cands candidates (texts)    post  postfix after a unique candidate    *)
(***************************************************************************)
EXTENDS Moji

WordBlanks == {32, 9, 13, 10, 11, 12}

Strip(t, q) == SelectSeq(t, LAMBDA c: c \notin Range(q))

(***************************************************************************)
(* Splitting what precedes the cursor in words.  Quotation marks switch    *)
(* blanks and delimiters off; a delimiter ends a word and is a word itself.*)
(* Result: the words without quotation marks, and where the last starts.   *)
(***************************************************************************)
Split(M, txt, cur) ==
  LET step(a, i) ==
        LET cell == txt[i]
            ch   == IF Len(cell) = 1 THEN cell[1] ELSE 0
            body == a.word \o cell
        IN IF a.start < 0 /\ ch \in WordBlanks THEN a
           ELSE
           LET st == IF a.start < 0 THEN i - 1 ELSE a.start
               isq == ch # 0 /\ ch \in Range(M.enc)
               open == IF isq
                       THEN IF ch \in a.open THEN a.open \ {ch} ELSE a.open \cup {ch}
                       ELSE a.open
           IN IF isq THEN [a EXCEPT !.word = body, !.start = st, !.open = open]
              ELSE IF a.open = {} /\ ch \in WordBlanks
              THEN [f |-> Append(a.f, Strip(a.word, M.enc)), last |-> st,
                    word |-> <<>>, start |-> -1, open |-> {}]
              ELSE IF a.open = {} /\ ch # 0 /\ ch \in Range(M.del)
              THEN [f |-> a.f \o <<Strip(a.word, M.enc), <<ch>>>>, last |-> i - 1,
                    word |-> <<>>, start |-> -1, open |-> {}]
              ELSE [a EXCEPT !.word = body, !.start = st]
      r == FoldLeft(step, [f |-> <<>>, last |-> 0, word |-> <<>>, start |-> -1, open |-> {}],
                    [i \in 1..cur |-> i])
  IN IF r.start < 0 THEN [f |-> r.f, last |-> r.last]
     ELSE [f |-> Append(r.f, Strip(r.word, M.enc)), last |-> r.start]

Fold(E, t) == [i \in 1..Len(t) |-> Info(E, t[i]).fold]
EqFold(E, a, b) == Fold(E, a) = Fold(E, b)
BeginsFold(E, name, p) == Len(name) >= Len(p) /\ EqFold(E, p, SubSeq(name, 1, Len(p)))

Utf8Len(t) == FoldLeft(LAMBDA n, c: n + (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2
                                         ELSE IF c < 65536 THEN 3 ELSE 4), 0, t)

(* Longest common prefix ignoring case, spelled as in the shortest candidate. *)
CommonPrefix(E, list) ==
  LET Agree(n) == \A i \in 1..Len(list) : Len(list[i]) >= n
                     /\ EqFold(E, SubSeq(list[i], 1, n), SubSeq(list[1], 1, n))
      n == CHOOSE n \in 0..Len(list[1]) : Agree(n) /\ (n = Len(list[1]) \/ ~Agree(n + 1))
      m == CHOOSE i \in 1..Len(list) :
             /\ \A j \in 1..Len(list) : Utf8Len(list[i]) <= Utf8Len(list[j])
             /\ \A j \in 1..(i - 1) : Utf8Len(list[i]) < Utf8Len(list[j])
  IN SubSeq(list[m], 1, n)

NeedsQuote(M, t) == \E i \in 1..Len(t) : t[i] \in WordBlanks \cup Range(M.del)

(***************************************************************************)
(* act: "none" (no word or no candidate), "bell" (nothing to add),         *)
(* "list" (candidates to be shown), "replace" (cells from..cursor by text) *)
(***************************************************************************)
Completion(E, M, txt, cur) ==
  LET sp   == Split(M, txt, cur)
      w    == sp.f[Len(sp.f)]
      list == SelectSeq(M.cands, LAMBDA c: BeginsFold(E, c, w))
      q    == IF M.enc = <<>> THEN <<>> ELSE <<M.enc[1]>>
      Res(a, t) == [act |-> a, from |-> sp.last, text |-> t, fields |-> sp.f, list |-> list]
  IN IF sp.f = <<>> THEN [act |-> "none", from |-> 0, text |-> <<>>, fields |-> <<>>, list |-> <<>>]
     ELSE IF list = <<>> THEN Res("none", <<>>)
     ELSE IF Len(list) = 1
     THEN IF EqFold(E, w, list[1]) THEN Res("bell", <<>>)
          ELSE Res("replace",
                   (IF NeedsQuote(M, list[1]) THEN q \o list[1] \o q ELSE list[1]) \o M.post)
     ELSE LET p == CommonPrefix(E, list)
          IN IF EqFold(E, w, p) THEN Res("list", <<>>)
             ELSE Res("replace",
                      IF \E i \in 1..Len(list) : NeedsQuote(M, list[i]) THEN q \o p ELSE p)

=============================================================================
