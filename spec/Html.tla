-------------------------------- MODULE Html --------------------------------
(***************************************************************************)
(* The observable side of the system: HTML as a sequence of tokens.        *)
(*                                                                         *)
(*   <<"o", name, atts>>   an opening tag                                  *)
(*   <<"c", name>>         a closing tag                                   *)
(*   <<"v", name, atts>>   a void element (br, img, hr, col)               *)
(*   <<"t", text>>         text, with character references decoded         *)
(*   <<"m", text>>         a comment                                       *)
(*                                                                         *)
(* `atts` is a function from attribute names to (decoded) values.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoA == [x \in {} |-> ""]
A(k, v) == k :> v
O(n, a) == << <<"o", n, a>> >>
C(n) == << <<"c", n>> >>
V(n, a) == << <<"v", n, a>> >>
T(s) == IF s = "" THEN << >> ELSE << <<"t", s>> >>
Cmt(s) == << <<"m", s>> >>
El(n, a, kids) == O(n, a) \o kids \o C(n)
Br == V("br", NoA)

Range(f) == {f[x] : x \in DOMAIN f}

RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN << >> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(ss, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
  IF i > Len(ss) THEN ""
  ELSE IF i = Len(ss) THEN ss[i]
  ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
\* the strings of ss, separated by sep
Join(ss, sep) == JoinFrom(ss, sep, 1)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)

Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E i \in 1..Len(s) : i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

\* In the text of a document a character reference stands for its character
RECURSIVE Decoded(_)
Decoded(s) ==
  IF s = "" THEN ""
  ELSE IF StartsWith(s, "&amp;") THEN "&" \o Decoded(SubSeq(s, 6, Len(s)))
  ELSE IF StartsWith(s, "&lt;") THEN "<" \o Decoded(SubSeq(s, 5, Len(s)))
  ELSE IF StartsWith(s, "&gt;") THEN ">" \o Decoded(SubSeq(s, 5, Len(s)))
  ELSE IF StartsWith(s, "&quot;") THEN "\"" \o Decoded(SubSeq(s, 7, Len(s)))
  ELSE IF StartsWith(s, "&#39;") THEN "'" \o Decoded(SubSeq(s, 6, Len(s)))
  ELSE Ch(s, 1) \o Decoded(SubSeq(s, 2, Len(s)))

-----------------------------------------------------------------------------
(* Structural predicates over token sequences.                             *)

IsOpen(t) == t[1] = "o"
IsClose(t) == t[1] = "c"
IsTag(t) == t[1] \in {"o", "v"}

\* The stack of open elements after each token; "!" marks a mismatch.
RECURSIVE StackAfter(_, _, _)
StackAfter(toks, i, stk) ==
  IF i > Len(toks) THEN stk
  ELSE IF IsOpen(toks[i]) THEN StackAfter(toks, i + 1, Append(stk, toks[i][2]))
  ELSE IF IsClose(toks[i])
    THEN IF Len(stk) > 0 /\ stk[Len(stk)] = toks[i][2]
         THEN StackAfter(toks, i + 1, SubSeq(stk, 1, Len(stk) - 1))
         ELSE <<"!">>
  ELSE StackAfter(toks, i + 1, stk)

WellNested(toks) == StackAfter(toks, 1, << >>) = << >>

AttOccurrences(toks, k) ==
  {i \in 1..Len(toks) : IsTag(toks[i]) /\ k \in DOMAIN toks[i][3]}
AttValues(toks, k) == {toks[i][3][k] : i \in AttOccurrences(toks, k)}

\* No two elements share an id.
UniqueIds(toks) == Cardinality(AttOccurrences(toks, "id")) = Cardinality(AttValues(toks, "id"))

\* Every in-page link made by the converter leads to an element that exists.
PageLinks(toks) == {SubSeq(h, 2, Len(h)) : h \in {v \in AttValues(toks, "href") : StartsWith(v, "#")}}
LinksResolve(toks) == PageLinks(toks) \subseteq AttValues(toks, "id")

TagNames(toks) == {toks[i][2] : i \in {j \in 1..Len(toks) : IsTag(toks[j])}}

\* Text of the document, in order
RECURSIVE TextFrom(_, _)
TextFrom(toks, i) ==
  IF i > Len(toks) THEN ""
  ELSE (IF toks[i][1] = "t" THEN toks[i][2] ELSE "") \o TextFrom(toks, i + 1)
TextOf(toks) == TextFrom(toks, 1)
=============================================================================
