------------------------------- MODULE MC_Mix -------------------------------
(* Random documents of everything there is, under all the settings *)
EXTENDS Lib
CONSTANTS Model, Depth
Ref(n) == J(<<W("ref"), Fr(n)>>)
\* ------------------------------------------------------------------ footnotes
\* Where code isn't code, its text is a text as any other.
AsText(c) == c.lite \/ ~c.block_tags
PlainTexts == {"x", "a & b", "fn(1)"}
RECURSIVE RefsIn(_), RefsAll(_)
RefsAll(b) == UNION {RefsIn(b[i]) : i \in 1..Len(b)}
RefsIn(n) == CASE n.k = "fr" -> {n.n} [] n.k \in {"sp", "ln", "j"} -> RefsAll(n.b) [] OTHER -> {}
BlockRefs(b) == CASE b.k \in {"p", "px", "h", "bq", "fn", "nd"} -> RefsAll(b.b)
                  [] b.k = "ls" -> UNION {RefsAll(b.i[i].b) : i \in 1..Len(b.i)}
                  [] b.k = "tb" -> UNION {UNION {RefsAll(b.r[i].c[j].b) : j \in 1..Len(b.r[i].c)} : i \in 1..Len(b.r)}
                  [] b.k = "dl" -> UNION {RefsAll(b.i[i].t) \cup RefsAll(b.i[i].d) : i \in 1..Len(b.i)}
                  [] OTHER -> {}
\* a footnote follows the first reference to it; there is at most one text of a footnote
MixOk(d, b) ==
  /\ b.k = "fn" => \A i \in 1..Len(d) : ~(d[i].k = "fn" /\ d[i].n = b.n)
  /\ \A i \in 1..Len(d) : d[i].k = "fn" => (d[i].n \notin BlockRefs(b) \/ \E j \in 1..(i - 1) : d[i].n \in BlockRefs(d[j]))
  /\ b.k = "fn" => b.n \notin BlockRefs(b) \/ \E j \in 1..Len(d) : b.n \in BlockRefs(d[j])

\* ---------------------------------------------------------------------- lists
ItemKinds == {"imsq", "qt", "lnnl", "w", "sp", "spsq", "ln", "code", "im", "fr", "nr", "gl", "cp", "ac", "pun", "lnsq", "lself", "la", "spc", "frx", "nrx", "nt", "raw"}
RECURSIVE RandItems(_, _)
RandItems(its, n) ==
  IF n = 0 THEN its
  ELSE LET prev == its[Len(its)].m
           l == RE(1..(IF Len(prev) < 4 THEN Len(prev) + 1 ELSE Len(prev)))
           m == IF l > Len(prev) THEN prev \o RE({"*", "#"}) ELSE SubSeq(prev, 1, l)
           s == IF l > Len(prev) /\ Ch(m, Len(m)) = "#" THEN RE({"", "", "", "_", "_", "2", "12"}) ELSE ""
       IN RandItems(Append(its, Li(m, s, RE({<< >>, << >>, <<cls>>, <<sty, lang>>}), RandText(ItemKinds, 2))), n - 1)
RandList(i) ==
  LET m == RE({"*", "#"})
      s == IF m = "#" THEN RE({"", "", "", "_", "4", "100"}) ELSE ""
  IN RandItems(<<Li(m, s, RE({<< >>, << >>, <<ci>>, <<lang>>}), RandLine({"w", "sp", "ln"}, 1))>>, RE(0..6))
\* --------------------------------------------------------------------- tables
RandCell(i) == Cell(RE(BOOLEAN), RE({<< >>, << >>, <<cls>>, <<<<"cs", "2">>>>, <<<<"rs", "2">>, alC, cls>>, <<sty>>, <<lang>>}), RandText(ItemKinds, 1))
RECURSIVE RandCells(_), RandRows(_, _)
RandCells(n) == IF n = 0 THEN << >> ELSE <<RandCell(n)>> \o RandCells(n - 1)
RandRows(n, s) ==
  IF n = 0 THEN << >>
  ELSE <<Row(RE(IF s = 0 THEN {""} ELSE IF s = 1 THEN {"^", "-", "~"} ELSE {"", "", "^", "-", "~"}), << >>,
             RE({<< >>, << >>, <<cls>>, <<sty>>}), RandCells(RE(1..3)))>>
       \o RandRows(n - 1, IF s = 0 THEN 0 ELSE 2)
RandTable(c) ==
  LET y == c.block_tags /\ ~c.lite /\ RE(BOOLEAN)
  IN Tb(y, IF y THEN RE({<< >>, <<cls>>, <<ci, sty>>}) ELSE << >>, IF y THEN RE({"", "sum"}) ELSE "", IF y THEN RE({NoCap, NoCap, Cap(<< >>, "capt")}) ELSE NoCap,
        IF y THEN RE({<< >>, << >>, <<Col("2", "100", << >>), Col("", "50", <<cls>>)>>}) ELSE << >>, RandRows(RE(1..3), RE({0, 1})))
CellFits(x) == /\ x.b # << >> /\ ProperAll(x.b)
               /\ ~(x.h = FALSE /\ x.a = << >> /\ FirstCh(Srcs(x.b)) = "_")
               /\ ~ImgLinkIn(x.b[Len(x.b)])
RECURSIVE RandDefs(_)
RandDefs(n) == IF n = 0 THEN << >>
               ELSE <<DiX(RE({<< >>, <<cls>>}), RE({<< >>, << >>, << <<W("s")>> >>}), RandText(ItemKinds, 1), RandText(ItemKinds, 1), RE(BOOLEAN))>>
                    \o RandDefs(n - 1)
\* --------------------------------------------------------------------- blocks
TextKinds == {"deep", "imsq", "qt", "lnnl", "lnsq", "lself", "la", "spc", "frx", "nrx", "nt", "raw", "w", "sp", "spsq", "ln", "im", "code", "fr", "nr", "ac", "cp", "gl", "pun", "par"}
BAtts == {<< >>, << >>, << >>, <<cls>>, <<ci>>, <<sty>>, <<lang>>, <<alC>>, <<pl(1)>>, <<cls, sty>>, <<alC, idp>>}
RText(i) == RandText(TextKinds, 2)
RandBlock(c) ==
  LET k == RE({"p", "p", "p", "px", "px", "h", "bq", "bq", "bc", "pre", "ntb", "cm", "fn", "nd", "nl", "al", "ls", "ls", "tb", "tb", "dl", "dls", "html", "pa"})
      x == RE({FALSE, FALSE, FALSE, TRUE})
  IN CASE k = "p" -> P(RText(0))
       [] k = "px" -> PX(x, RE(BAtts), RText(0))
       [] k = "h" -> H(x, RE({"1", "2", "3", "4", "5", "6"}), RE(BAtts), RText(0))
       [] k = "bq" -> Bq(x, RE(BAtts), RE({NoUrl, NoUrl, ex, rel2}), RText(0))
       [] k = "bc" -> Bc(x, RE({<< >>, <<cls>>, <<lang>>}), RE(CodeTexts))
       [] k = "pre" -> Pre(x, RE({<< >>, <<cls>>}), RE(CodeTexts))
       [] k = "ntb" -> LET s == RE(IF AsText(c) THEN PlainTexts ELSE {"(x)", "*x*", "_a b_"}) IN NtB(x, s, T(s))
       [] k = "cm" -> Cm(x, "comment")
       [] k = "fn" -> Fn(RE({"1", "2", "3"}), RE({<< >>, <<cls>>, <<ci>>}), RE(BOOLEAN), RText(0))
       [] k = "nd" -> Nd(RE({"a1", "b2", "c3", "d4"}), RE({"", "^", "!", "*"}), RE({<< >>, <<cls>>}), RandLine({"w", "sp", "ln"}, 1))
       [] k = "nl" -> Nlist(RE({<< >>, <<cls>>}), RE({"", "1", "§"}), RE({"", "^", "!"}), RE(BOOLEAN))
       [] k = "al" -> LET u == RE({ex, exs, exq}) IN Al(RE({"al1", "al2"}), u, "?")
       [] k = "pa" -> P(<<W("see"), Ln(<< >>, <<W("alias")>>, "", Alias(RE({"al1", "al2"}))), W("end")>>)
       [] k = "ls" -> Lst(RandList(0))
       [] k = "tb" -> RandTable(c)
       [] k = "dl" -> Lst(<<Li(";", "", RE({<< >>, <<cls>>}), RandLine({"w", "sp"}, 1)), Li(":", "", << >>, RandText(ItemKinds, 1))>>)
       [] k = "dls" -> Dls(RandDefs(RE(1..3)))
       [] k = "html" -> HtmlB("<div class=\"d\">text</div>", El("div", A("class", "d"), T("text")))
\* What is left out: a copyright sign within brackets ("((c))"), a line of a
\* definition which starts with a dash, and, where images are switched off,
\* the "<" of their alignment (raw HTML outside of restricted mode).
RECURSIVE Odd(_, _), OddAll(_, _)
OddAll(c, b) == \E i \in 1..Len(b) : Odd(c, b[i])
IsParen(n) == n.k = "j" /\ n.b[1].k = "w" /\ n.b[1].s = "("
Odd(c, n) ==
  CASE n.k = "j" -> IF IsParen(n) /\ n.b[2].k = "gl" THEN TRUE
                    ELSE OddAll(c, n.b)
    [] n.k = "sp" -> OddAll(c, n.b)
    [] n.k = "ln" -> IF ~c.block_tags /\ (\E i \in 1..Len(n.b) : n.b[i].k # "w") THEN TRUE ELSE OddAll(c, n.b)
    [] n.k = "code" -> AsText(c) /\ n.s \notin PlainTexts
    [] n.k = "nt" -> AsText(c) /\ n.s \notin PlainNt
    [] n.k = "im" -> n.al = "<" /\ (~c.images \/ ~c.block_tags) /\ ~c.restricted
    [] OTHER -> FALSE
\* where lists are text, the stars of such a mark would enclose a phrase
Starry(m) == \E i \in 1..Len(m) : \E j \in 1..Len(m) : i + 1 < j /\ Ch(m, i) = "*" /\ Ch(m, j) = "*" /\ Ch(m, i + 1) # "*"
OddIn(c, b) ==
  CASE b.k \in {"p", "px", "h", "bq", "fn", "nd"} -> OddAll(c, b.b)
    [] b.k = "ls" -> \E i \in 1..Len(b.i) : (AsText(c) /\ (b.i[i].a # << >> \/ Starry(b.i[i].m))) \/ OddAll(c, b.i[i].b)
    [] b.k = "dl" -> \E i \in 1..Len(b.i) : (AsText(c) /\ b.i[i].a # << >>) \/ OddAll(c, b.i[i].t) \/ OddAll(c, b.i[i].d) \/ DashLine(b.i[i].t) \/ DashLine(b.i[i].d)
    [] b.k \in {"bc", "pre", "ntb"} -> AsText(c) /\ ~(c.block_tags /\ b.k = "bc") /\ b.s \notin PlainTexts
    [] b.k = "tb" -> \E i \in 1..Len(b.r) : \E j \in 1..Len(b.r[i].c) :
                       OddAll(c, b.r[i].c[j].b) \/ (AsText(c) /\ (Open1(b.r[i].c[j].b[1]).k \notin {"w", "ac"} \/ Last1(b.r[i].c[j].b[Len(b.r[i].c[j].b)]).k = "sp"))
    [] OTHER -> FALSE
Fits(b) ==
  CASE b.k \in {"p", "px", "h", "bq", "fn", "nd"} -> ProperAll(b.b)
    [] b.k = "ls" -> \A i \in 1..Len(b.i) : ProperAll(b.i[i].b)
    [] b.k = "dl" -> \A i \in 1..Len(b.i) : ProperAll(b.i[i].t) /\ ProperAll(b.i[i].d)
    [] b.k = "tb" -> \A i \in 1..Len(b.r) : \A j \in 1..Len(b.r[i].c) : CellFits(b.r[i].c[j])
    [] OTHER -> TRUE
Both == {c \in [restricted : BOOLEAN, lite : BOOLEAN, images : BOOLEAN, html : {"html5", "xhtml"}, rel : {"", "nofollow"},
            block_tags : BOOLEAN, align_class : {"unset", "on", "off"}, raw_blocks : {FALSE}, sanitize : BOOLEAN, uid : {"uid0"}] : TRUE}
Normal(c) == c.block_tags /\ ~c.lite /\ ~c.sanitize
Cfgs(m) ==
  CASE m = "default" -> {Cfg0}
    [] m = "normal" -> {c \in Both : Normal(c)}
    [] m = "lite" -> {c \in Both : c.lite /\ c.block_tags}
    [] m = "noblocks" -> {c \in Both : ~c.block_tags}
    [] m = "noimages" -> {c \in Both : ~c.images}
    [] m = "xhtml" -> {c \in Both : c.html = "xhtml"}
    [] m = "rel" -> {c \in Both : c.rel # ""}
    [] m = "sanitize" -> {c \in Both : c.sanitize}
    [] m = "restricted" -> {c \in Both : c.restricted}
    [] m = "all" -> Both
InitR == DocInit(Cfgs(Model))
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E b \in {RandBlock(cfg)} :
          IF Fits(b) THEN IF OddIn(cfg, b) THEN UNCHANGED vars ELSE IF MixOk(doc, b) THEN WriteOrSkip(b) ELSE UNCHANGED vars ELSE UNCHANGED vars
=============================================================================
