---------------------------- MODULE Diagnostics ----------------------------
(* What the text of a diagnostic has to say: the line it quotes, the column  *)
(* it marks, the names it is about and the names it suggests.                *)
(*                                                                           *)
(* said: a printed diagnostic with a position, as [lvl, line, col, gutter,   *)
(* quote, mark, names, near, only]: gutter, quote and mark are the number    *)
(* and text of the quoted line and the column under which the mark stands,   *)
(* names what the message puts in backquotes, near the suggested names,      *)
(* only the types an extraneous spread is said to be limited to.             *)
EXTENDS GraphQL

(***************************************************************************)
(* Edit distance: insertions, deletions, changes of a character and         *)
(* exchanges of two neighbours, also where something was inserted between   *)
(***************************************************************************)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* one row of distances after those of the shorter beginnings of a
RECURSIVE Cells(_, _, _, _, _)
Cells(a, b, rows, i, j) ==
  IF j = 0 THEN <<i>>
  ELSE LET left == TLCEval(Cells(a, b, rows, i, j - 1))
           swaps == {rows[k][l] + (i - k - 1) + 1 + (j - l - 1) :
                       <<k, l>> \in {p \in (1..(i - 1)) \X (1..(j - 1)) :
                                       At(a, p[1]) = At(b, j) /\ At(a, i) = At(b, p[2])}}
       IN  Append(left, MinOf({left[j] + 1, rows[i][j + 1] + 1,
                               rows[i][j] + (IF At(a, i) = At(b, j) THEN 0 ELSE 1)} \cup swaps))
RECURSIVE Rows(_, _, _)
Rows(a, b, i) ==
  IF i = 0 THEN <<[j \in 1..(Len(b) + 1) |-> j - 1]>>
  ELSE LET before == TLCEval(Rows(a, b, i - 1))
       IN  Append(before, TLCEval(Cells(a, b, before, i, Len(b))))
Distance(a, b) == Rows(a, b, Len(a))[Len(a) + 1][Len(b) + 1]

Near(name, names) ==
  {n \in names : Len(n) < Len(name) + 3 /\ Len(name) < Len(n) + 3 /\ Distance(name, n) < 3}

(***************************************************************************)
(* Names                                                                    *)
(***************************************************************************)
\* the name a mistake is about, as its message gives it
Subject(m) == IF m.c = "no-condition" THEN "" ELSE m.n
Candidates(S, F, m) ==
  CASE m.c = "unknown-field" -> DOMAIN S[m.t].f
    [] m.c = "unknown-fragment" -> DOMAIN F
    [] OTHER -> {}

FirstName(names) == IF names = <<>> THEN "" ELSE names[1]

\* Warnings with what they are about: [pos, n, t, only]
RECURSIVE Warned(_, _, _, _, _, _)
Warned(S, F, sel, lex, eff, depr) ==
  IF sel = <<>> THEN <<>>
  ELSE
  LET h == Head(sel)
      narrow(t) == <<[pos |-> h.pos, n |-> t, t |-> "", only |-> eff]>>
      one ==
        CASE h.k = "f" ->
               LET d == Decl(S, lex, h.name)
               IN  (IF depr /\ d.d THEN <<[pos |-> h.pos, n |-> h.name, t |-> lex, only |-> {}]>> ELSE <<>>)
                   \o (IF h.sel = <<>> THEN <<>> ELSE Warned(S, F, h.sel, d.n, Poss(S, d.n), depr))
          [] h.k = "i" ->
               LET e == Poss(S, h.on) \cap eff
               IN  (IF e = {} THEN narrow(h.on) ELSE <<>>) \o Warned(S, F, h.sel, h.on, e, depr)
          [] h.k = "s" ->
               IF Poss(S, F[h.frag].on) \cap eff = {} THEN narrow(F[h.frag].on) ELSE <<>>
  IN  one \o Warned(S, F, Tail(sel), lex, eff, depr)

(***************************************************************************)
(* Clauses                                                                  *)
(***************************************************************************)
\* text: the lines of the document
Quoted(s, text) ==
  /\ s.line \in 1..Len(text) => s.quote = text[s.line] /\ s.gutter = s.line
  /\ s.mark = s.col

Key(s) == <<s.line, s.col, FirstName(s.names)>>
MistakeKey(m) == <<m.pos[1], m.pos[2], Subject(m)>>
WarningKey(w) == <<w.pos[1], w.pos[2], w.n, w.t, w.only>>
SaidWarning(s) ==
  <<s.line, s.col, FirstName(s.names), IF Len(s.names) > 1 THEN s.names[2] ELSE "", Range(s.only)>>

\* Each mistake is reported under its name, and suggestions are all the names nearby
MistakesNamed(S, F, mistakes, said) ==
  LET placed == SelectSeq(mistakes, LAMBDA m : m.pos # <<>>)
  IN  BagOf([i \in 1..Len(placed) |-> MistakeKey(placed[i])]) = BagOf([i \in 1..Len(said) |-> Key(said[i])])
Suggested(S, F, mistakes, said) ==
  \A i \in 1..Len(said) :
    LET s == said[i]
        here == {m \in Range(mistakes) : m.pos # <<>> /\ MistakeKey(m) = Key(s)}
    IN  /\ Len(s.near) = Cardinality(Range(s.near))
        /\ \A m \in here : Range(s.near) = Near(m.n, Candidates(S, F, m))
WarningsNamed(S, F, d, root, depr, said) ==
  LET w == Warned(S, F, d.sel, root, Poss(S, root), depr)
  IN  BagOf([i \in 1..Len(w) |-> WarningKey(w[i])]) = BagOf([i \in 1..Len(said) |-> SaidWarning(said[i])])
=============================================================================
