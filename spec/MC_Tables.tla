------------------------------ MODULE MC_Tables -----------------------------
(* Tables *)
EXTENDS Lib
CONSTANTS Model, Depth
c(i) == <<W("c" \o ToString(i))>>
D(i) == Cell(FALSE, << >>, c(i))
Hd(i) == Cell(TRUE, << >>, c(i))
R0(cs) == Row("", << >>, << >>, cs)
Plain(rows) == Tb(FALSE, << >>, "", NoCap, << >>, rows)
\* every arrangement of up to 3 rows of up to 3 cells, headers and data
CellRows == UNION {[1..n -> {D(1), Hd(2)}] : n \in 1..3}
Grids == {Plain(<<R0(r)>>) : r \in CellRows} \cup {Plain(<<R0(r), R0(s)>>) : r \in CellRows, s \in CellRows}
\* sections: every sequence of sections (the first row begins one)
Secs == {<< >>, <<cls>>, <<sty, lang>>}
SecRows(first) == {Row(s, a, ra, <<D(1), Hd(2)>>) : s \in {"^", "-", "~"}, a \in Secs, ra \in {<< >>, <<cls>>}}
             \cup (IF first THEN {} ELSE {Row("", << >>, ra, <<D(3)>>) : ra \in {<< >>, <<idp>>}})
Sections == {Plain(<<r>>) : r \in SecRows(TRUE)} \cup {Plain(<<r, s>>) : r \in SecRows(TRUE), s \in SecRows(FALSE)}
SecRows3 == {Row(s, << >>, << >>, <<D(1)>>) : s \in {"^", "-", "~"}} \cup {R0(<<D(2)>>)}
Sections3 == {Plain(<<r, s, t>>) : r \in {x \in SecRows3 : x.sec # ""}, s \in SecRows3, t \in SecRows3}
        \cup {Plain(<<r, s, t, u>>) : r \in {x \in SecRows3 : x.sec # ""}, s \in SecRows3, t \in SecRows3, u \in SecRows3}
\* the table itself, its caption and columns
Caps == {NoCap, Cap(<< >>, "capt"), Cap(<<cls>>, "two words"), Cap(<<idp>>, "größe")}
ColSets == {<< >>, <<Col("", "100", << >>)>>, <<Col("2", "100", << >>)>>, <<Col("3", "", << >>)>>, <<Col("", "50", <<cls>>)>>,
            <<Col("2", "100", << >>), Col("", "50", << >>)>>, <<Col("2", "", << >>), Col("3", "40", << >>), Col("", "", << >>)>>,
            <<Col("", "10", << >>), Col("", "20", << >>), Col("", "30", << >>)>>,
            <<Col("2", "100", <<sty>>), Col("", "50", <<cls>>)>>}
TAtts == {<< >>, <<cls>>, <<idp>>, <<sty>>, <<lang>>, <<alC>>, <<alC, cls>>}
Bodies == {<<R0(<<D(1), D(2)>>), R0(<<D(3), D(4)>>)>>, <<Row("^", << >>, << >>, <<Hd(1)>>), Row("-", << >>, << >>, <<D(2)>>)>>}
Heads == {Tb(TRUE, a, s, cp, cl, b) : a \in TAtts, s \in {"", "a summary"}, cp \in Caps, cl \in ColSets, b \in Bodies}
\* what a cell may hold
Texts == {<<W("a"), Sp("*", << >>, <<W("b")>>)>>, <<Ln(<< >>, <<W("l")>>, "", ex)>>, <<Ln(<< >>, <<W("l")>>, "ti", rel1), W("x")>>,
          <<Code("c *d*")>>, <<Code("a < b")>>, <<Im("", << >>, pic, "", NoUrl)>>, <<W("one"), NL, W("two")>>, <<W("größe")>>,
          <<J(<<W("f"), Fr("1")>>)>>, <<Cp("HTML")>>, <<W("a"), Gl("--", "—"), W("b")>>, <<Sp("_", <<cls>>, <<W("e")>>), W("x")>>,
          <<Ac("ABC", "title")>>, <<Gl("\"q\"", "“q”")>>, << >>, <<Code("a|b")>>, <<W("x"), Code("|"), W("y")>>, <<W("x"), Code("a | b | c")>>, <<W(" spaced ")>>, <<W("  x")>>, <<W("x ")>>}
TextOk(h, t) == t # << >> => FirstCh(Srcs(t)) # "_"
Cells == {Cell(h, a, t) : h \in BOOLEAN, a \in {<< >>, <<cls>>, <<<<"cs", "2">>>>, <<<<"cs", "2">>, <<"rs", "3">>, alC, sty>>}, t \in Texts}
Fits(x) == x.h = FALSE /\ x.a = << >> => TextOk(x.h, x.b)
CellSet == {Plain(<<R0(<<D(1), x, D(2)>>), R0(<<D(3)>>)>>) : x \in {y \in Cells : Fits(y)}}
      \cup {Plain(<<R0(<<D(1)>>), Row("", << >>, <<cls>>, <<x>>)>>) : x \in {y \in Cells : Fits(y)}}
\* lists in cells
It(m, t) == Li(m, "", << >>, t)
InCells == {<<It("*", c(1))>>, <<It("*", c(1)), It("*", c(2))>>, <<It("#", c(1)), It("#", c(2))>>, <<It("*", c(1)), It("**", c(2)), It("*", c(3))>>, <<It("#", c(1)), It("#*", c(2))>>,
            <<It("*", <<Sp("*", << >>, <<W("b")>>), W("x")>>), It("*", <<Ln(<< >>, <<W("l")>>, "", ex)>>)>>, <<Li("*", "", <<cls>>, c(1)), It("*", <<Code("x")>>)>>, <<It(";", c(1)), It(":", c(2))>>, <<Li("#", "5", << >>, c(1)), It("#", c(2))>>}
ListCells == {Plain(<<R0(<<D(1), Cell(h, a, <<Lst(l)>>), D(2)>>), R0(<<D(3)>>)>>) : h \in {FALSE}, a \in {<< >>}, l \in InCells}
        \cup {Plain(<<R0(<<Cell(FALSE, << >>, <<Lst(l)>>), Cell(FALSE, << >>, <<Lst(k)>>)>>)>>) : l \in InCells, k \in InCells}
\* every attribute of a cell, one by one and in pairs, in headers and in data
cs2 == <<"cs", "2">>
rs3 == <<"rs", "3">>
AttParts == {cls, idp, ci, sty, lang, alL, alR, alC, alJ, vaT, vaM, vaB, cs2, rs3, <<"cs", "12">>, <<"rs", "10">>, pl(1), pr(1)}
\* spans, then alignment, then the rest
Rank(a) == CASE a[1] = "cs" -> 1 [] a[1] = "rs" -> 2 [] a[1] = "va" -> 3 [] a[1] = "al" -> 4 [] a[1] \in {"pl", "pr"} -> 5 [] a[1] \in {"cls", "id", "ci"} -> 6 [] a[1] = "sty" -> 7 [] OTHER -> 8
AttPairs == {<<a>> : a \in AttParts} \cup {<<x[1], x[2]>> : x \in {y \in AttParts \X AttParts : Rank(y[1]) < Rank(y[2]) /\ ~(Rank(y[1]) = 5 /\ Rank(y[2]) = 6)}}
       \cup {<<a, v>> : a \in {alC, alL, alR}, v \in {vaT, vaM, vaB}} \cup {<<cs2, rs3, alC, vaB, ci, sty, lang>>, <<cs2, vaT, sty2>>, <<rs3, cs2, alC>>}
RowParts == {l \in AttPairs : \A i \in 1..Len(l) : Rank(l[i]) > 2}
Angles(l) == \E i \in 1..Len(l) : l[i] \in {alL, alR, alJ}
Attributed(ls) == {Plain(<<R0(<<D(1), Cell(h, a, <<W("x")>>), Cell(g, << >>, <<W("y")>>)>>)>>) : h \in BOOLEAN, g \in BOOLEAN, a \in ls}
OnRows(ls) == {Plain(<<R0(<<D(1)>>), Row("", << >>, a, <<D(2), Hd(3)>>)>>) : a \in ls} \cup {Plain(<<Row("^", a, << >>, <<D(2), Hd(3)>>), Row("-", <<cls>>, a, <<D(1)>>)>>) : a \in {x \in ls : \A i \in 1..Len(x) : Rank(x[i]) > 5}}
Bodies1 == <<R0(<<D(1), D(2)>>), R0(<<D(3), D(4)>>)>>
Around == {P(<<W("para")>>), H(FALSE, "1", << >>, <<W("head")>>), Plain(<<R0(<<D(1), D(2)>>)>>), Plain(<<R0(<<Hd(1)>>), R0(<<D(1)>>)>>),
           Tb(TRUE, <<cls>>, "", Cap(<< >>, "cc"), << >>, Bodies1), Lst(<<Li("*", "", << >>, <<W("i")>>)>>), Bq(TRUE, << >>, NoUrl, <<W("quote")>>)}
Lits == {"|x", "a | b", "a|b|c", "| x"}

Blocks(m) ==
  CASE m = "grids" -> Grids
    [] m = "sections" -> Sections
    [] m = "sections3" -> Sections3
    [] m = "heads" -> Heads
    [] m = "cells" -> CellSet
    [] m = "listcells" -> ListCells
    [] m = "atts" -> Attributed(AttPairs) \cup OnRows(RowParts)
    \* in restricted mode "<" and ">" are text
    [] m = "attsr" -> Attributed({x \in AttPairs : ~Angles(x)}) \cup OnRows({x \in RowParts : ~Angles(x)})
    [] m = "around" -> Around
    [] m = "lits" -> {P(<<Gl(s, s)>>) : s \in Lits}
Cfgs(m) == IF m = "atts" THEN {Cfg0} ELSE IF m = "attsr" THEN {Restricted} ELSE BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)

RandCell(i) == Cell(RE(BOOLEAN), RE({<< >>, << >>, <<cls>>, <<<<"cs", "2">>>>, <<<<"rs", "2">>, alC, cls>>, <<sty>>}), RandText({"w", "w", "sp", "ln", "code"}, 1))
RECURSIVE RandCells(_), RandRows(_, _)
RandCells(n) == IF n = 0 THEN << >> ELSE <<RandCell(n)>> \o RandCells(n - 1)
RandRows(n, s) ==
  IF n = 0 THEN << >>
  ELSE <<Row(RE(IF s = 0 THEN {""} ELSE IF s = 1 THEN {"^", "-", "~"} ELSE {"", "", "^", "-", "~"}), << >>,
             RE({<< >>, << >>, <<cls>>, <<sty>>}), RandCells(RE(1..4)))>>
       \o RandRows(n - 1, IF s = 0 THEN 0 ELSE 2)
RandTable(i) ==
  LET y == RE(BOOLEAN)
  IN Tb(y, IF y THEN RE(TAtts) ELSE << >>, IF y THEN RE({"", "sum"}) ELSE "", RE(Caps), RE(ColSets), RandRows(RE(1..4), RE({0, 1})))
CellFits(x) == /\ x.b # << >> /\ ProperAll(x.b)
               /\ ~(x.h = FALSE /\ x.a = << >> /\ FirstCh(Srcs(x.b)) = "_")
               /\ ~ImgLinkIn(x.b[Len(x.b)])
TableFits(t) == \A i \in 1..Len(t.r) : \A j \in 1..Len(t.r[i].c) : CellFits(t.r[i].c[j])
InitR == DocInit(BothModes)
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E k \in {RE(1..3)} :
          IF k = 1 THEN \E b \in {RE(Around)} : WriteOrSkip(b)
          ELSE \E t \in {RandTable(Len(doc))} : IF TableFits(t) THEN WriteOrSkip(t) ELSE UNCHANGED vars
=============================================================================
