------------------------------ MODULE MC_Lines ------------------------------
(***************************************************************************)
(* Lines: how a document is laid out - the line ends of the system it was  *)
(* written on, more than one blank line, white space in blank lines, blank *)
(* lines around the text - makes no difference; a line break in a          *)
(* paragraph is a line break of the result.                                *)
(***************************************************************************)
EXTENDS Lib
CONSTANTS Model, Depth
VARIABLE lay
lvars == <<cfg, doc, st, out, lay>>
L(e, g, b, a) == [e |-> e, g |-> g, b |-> b, a |-> a]
Eols == {"\n", "\r\n", "\r"}
Gaps == {"\n\n", "\n\n\n", "\n \n", "\n\t \n", "\n\n\n\n\n", "\n\n \n", "\n  \n\n\t\n"}
Befores == {"", "\n", "\n\n\n", " \n", "\t\n \n"}
Afters == {"", "\n", "\n\n", "\n \n"}
RECURSIVE WithEols(_, _, _)
WithEols(s, e, i) ==
  IF i > Len(s) THEN s
  ELSE IF Ch(s, i) = "\n" THEN SubSeq(s, 1, i - 1) \o e \o WithEols(SubSeq(s, i + 1, Len(s)), e, 1)
  ELSE WithEols(s, e, i + 1)
LaidOut(d, l) == WithEols(l.b \o Join([i \in 1..Len(d) |-> BSrc(d[i])], l.g) \o l.a, l.e, 1)
LEmit == IF doc = << >> THEN TRUE ELSE PrintT("@@" \o ToJson([c |-> cfg, s |-> LaidOut(doc, lay), e |-> Html]))

W1 == <<W("word")>>
Two == <<W("one"), NL, W("two")>>
Pool == {
  P(W1), P(Two), P(<<W("one"), NL, Sp("*", << >>, <<W("two")>>), NL, W("three")>>), PX(FALSE, <<cls>>, Two), H(FALSE, "2", << >>, Two), Bq(FALSE, << >>, NoUrl, Two),
  Bc(FALSE, << >>, "one\n  two\nthree"), Bc(FALSE, << >>, "x"), Pre(FALSE, << >>, "one\n\ttwo"), NtB(FALSE, "one\ntwo", T("one\ntwo")), Cm(FALSE, "one\ntwo"),
  Fn("1", << >>, FALSE, Two), P(<<J(<<W("a"), Fr("1")>>), NL, W("b")>>), P(<<Ln(<< >>, <<W("alias")>>, "", Alias("al")), NL, W("b")>>), Al("al", exs, "?"),
  Lst(<<Li("*", "", << >>, <<W("one")>>), Li("*", "", << >>, Two), Li("**", "", << >>, <<W("three")>>)>>),
  Lst(<<Li("#", "", << >>, <<W("one")>>), Li("#", "", << >>, <<W("two")>>)>>),
  Lst(<<Li(";", "", << >>, <<W("term")>>), Li(":", "", << >>, <<W("def")>>)>>),
  Dls(<<Di(<< >>, <<W("term")>>, <<W("def")>>), Di(<< >>, <<W("term")>>, <<W("def")>>)>>),
  Tb(FALSE, << >>, "", NoCap, << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, Two), Cell(TRUE, << >>, W1)>>), Row("", << >>, <<cls>>, <<Cell(FALSE, << >>, W1), Cell(FALSE, <<alC>>, W1)>>)>>),
  Tb(TRUE, <<cls>>, "sum", NoCap, << >>, <<Row("^", << >>, << >>, <<Cell(TRUE, << >>, W1)>>), Row("-", << >>, << >>, <<Cell(FALSE, << >>, W1)>>)>>),
  Nd("a1", "", << >>, W1), P(<<J(<<W("x"), Nr("a1")>>)>>), Nlist(<< >>, "", "", FALSE)}
Extended == {Bq(TRUE, << >>, NoUrl, Two), PX(TRUE, <<cls>>, W1), P(Two), P(W1), H(TRUE, "3", << >>, W1), Cm(TRUE, "x"), PX(FALSE, << >>, W1)}
Breaks(h) == {Host(h, t) : t \in {
  <<W("one"), NL, W("two")>>, <<W("one"), NL, W("two"), NL, W("three")>>, <<W("x"), Sp("*", << >>, W1), NL, W("y")>>, <<W("x"), NL, Sp("_", << >>, W1), W("y")>>,
  <<W("x"), Ln(<< >>, W1, "", ex), NL, W("y")>>, <<W("x"), NL, Ln(<< >>, W1, "", ex), W("y")>>,
  <<W("x"), Im("", << >>, pic, "", NoUrl), NL, W("y")>>, <<Code("x"), NL, Code("y")>>, <<W("größe"), NL, W("日本"), NL, W("é")>>, <<W("a."), NL, W("b")>>, <<W("a,"), NL, W("(b)")>>,
  <<Cp("NASA"), NL, Cp("HTML")>>, <<Gl("\"q\"", "“q”"), NL, Gl("it's", "it’s")>>}}
Blks(m) ==
  CASE m \in {"eols", "gaps", "around", "mix"} -> Pool
    [] m = "ext" -> Extended
    [] m = "breaks" -> UNION {Breaks(h) : h \in {"p", "px", "h2", "bq", "li", "ol", "lii", "td", "th", "td2", "fn"}}
Lays(m) ==
  CASE m = "eols" -> {L(e, "\n\n", "", "") : e \in Eols}
    [] m = "gaps" -> {L("\n", g, "", "") : g \in Gaps}
    [] m = "ext" -> {L("\n", g, "", "") : g \in Gaps} \cup {L("\r\n", "\n\n", "", "")}
    [] m = "around" -> {L(e, "\n\n", b, a) : e \in {"\n", "\r\n"}, b \in Befores, a \in Afters}
    [] m = "breaks" -> {L(e, "\n\n", "", "") : e \in Eols}
    [] m = "mix" -> {L(e, g, b, a) : e \in Eols, g \in Gaps, b \in Befores, a \in Afters}
Cfgs(m) == IF m = "breaks" THEN {Cfg0, Restricted, Xhtml} ELSE IF m = "mix" THEN {Cfg0, Restricted, Xhtml, Lite} ELSE BothModes
OneList(b) == IF b.k = "nl" THEN \A i \in 1..Len(doc) : doc[i].k # "nl" ELSE IF b.k = "fn" THEN \A i \in 1..Len(doc) : doc[i].k # "fn" /\ ~(doc[i].k = "p" /\ FALSE) ELSE TRUE
\* a reference after its footnote is left to MC_Foot
NoLateRef(b) == \A i \in 1..Len(doc) : doc[i].k = "fn" => ~(b.k = "p" /\ b.b[1].k = "j" /\ b.b[1].b[2].k = "fr")
Init == DocInit(Cfgs(Model)) /\ lay \in Lays(Model)
LWrite(b) == Write(b) /\ UNCHANGED lay
Next == LEmit /\ Len(doc) < Depth /\ \E b \in Blks(Model) : OneList(b) /\ NoLateRef(b) /\ LWrite(b)
InitR == Init
NextR == \/ Len(doc) = Depth /\ LEmit /\ FALSE
         \/ /\ Len(doc) < Depth
            /\ \E b \in {RE(IF Len(doc) >= 0 THEN Pool ELSE {})} :
                 IF OneList(b) /\ NoLateRef(b) /\ MayFollow(st, b) THEN LWrite(b) ELSE UNCHANGED lvars
=============================================================================
