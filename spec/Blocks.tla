------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Block-level Textile.  A document is a sequence of blocks separated by   *)
(* blank lines.  `BSrc` is what the author writes, `RBlock` is what it     *)
(* means in the current parser state, `Finish` is what remains to be done  *)
(* at the end of the document (closing an extended block, resolving the    *)
(* link aliases, placing the lists of endnotes).                           *)
(***************************************************************************)
EXTENDS Inline

\* ---------------------------------------------------------------- constructors
\* x - TRUE for an extended block ("bq.. ")
P(b) == [k |-> "p", b |-> b]
PX(x, a, b) == [k |-> "px", x |-> x, a |-> a, b |-> b]
H(x, n, a, b) == [k |-> "h", x |-> x, n |-> n, a |-> a, b |-> b]
Bq(x, a, url, b) == [k |-> "bq", x |-> x, a |-> a, url |-> url, b |-> b]
Bc(x, a, s) == [k |-> "bc", x |-> x, a |-> a, s |-> s]
Pre(x, a, s) == [k |-> "pre", x |-> x, a |-> a, s |-> s]
NtB(x, s, o) == [k |-> "ntb", x |-> x, s |-> s, o |-> o]
Cm(x, s) == [k |-> "cm", x |-> x, s |-> s]
Fn(n, a, back, b) == [k |-> "fn", n |-> n, a |-> a, back |-> back, b |-> b]
Nd(l, link, a, b) == [k |-> "nd", l |-> l, link |-> link, a |-> a, b |-> b]
Nlist(a, start, link, plus) == [k |-> "nl", a |-> a, start |-> start, link |-> link, plus |-> plus]
Digits == "0123456789"
IndexIn(s, c) == CHOOSE i \in 1..Len(s) : Ch(s, i) = c
RECURSIVE Num(_)
Num(s) == IF s = "" \/ s = "_" THEN 0 ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + IndexIn(Digits, Ch(s, Len(s))) - 1
\* m - the marker ("*#"), st - "" or "_" (continue) or the number to start at
Li(m, st, a, b) == [m |-> m, st |-> st, start |-> Num(st), a |-> a, b |-> b]
Lst(items) == [k |-> "ls", i |-> items]
Cell(h, a, b) == [h |-> h, a |-> a, b |-> b]
Row(sec, sa, a, c) == [sec |-> sec, sa |-> sa, a |-> a, c |-> c]
NoCap == [y |-> FALSE, a |-> << >>, s |-> ""]
Cap(a, s) == [y |-> TRUE, a |-> a, s |-> s]
Col(span, width, a) == [span |-> span, width |-> width, a |-> a]
Tb(y, a, sum, cap, cols, rows) ==
  [k |-> "tb", y |-> y, a |-> a, sum |-> sum, cap |-> cap, cols |-> cols, r |-> rows]
\* pre - the terms before t which share its definition; w - the definition is
\* written as a block ("t :=\nd =:")
Di(a, t, d) == [a |-> a, pre |-> << >>, t |-> t, d |-> d, w |-> FALSE]
DiX(a, pre, t, d, w) == [a |-> a, pre |-> pre, t |-> t, d |-> d, w |-> w]
Dls(items) == [k |-> "dl", i |-> items]
Al(n, url, shown) == [k |-> "al", n |-> n, url |-> url, shown |-> shown]
HtmlB(s, o) == [k |-> "html", s |-> s, o |-> o]
Sps(b) == [k |-> "sps", b |-> b]
\* a block of HTML: the tag t with the attributes a, around inline Textile
Hb(t, a, b) == [k |-> "hb", t |-> t, a |-> a, b |-> b]
\* its tags, as blocks of their own around other blocks
Ho(t, a) == [k |-> "ho", t |-> t, a |-> a]
Hc(t) == [k |-> "hc", t |-> t]
\* attributes as HTML spells them: pairs of a name and a value
HA(n, v) == <<n, v>>
HAttsSrc(a) == Join([i \in 1..Len(a) |-> " " \o a[i][1] \o "=\"" \o a[i][2] \o "\""], "")
RECURSIVE HAtts(_, _)
HAtts(a, i) == IF i > Len(a) THEN NoA ELSE A(a[i][1], a[i][2]) @@ HAtts(a, i + 1)
HOpenSrc(b) == "<" \o b.t \o HAttsSrc(b.a) \o ">"
HCloseSrc(b) == "</" \o b.t \o ">"
BlockLevel == {"address", "article", "aside", "blockquote", "details", "div", "dl", "fieldset", "figure", "figcaption", "footer", "form",
               "h1", "h2", "h3", "h4", "h5", "h6", "header", "hgroup", "main", "menu", "nav", "ol", "pre", "p", "section", "table", "template", "ul"}
Phrasing == {"abbr", "a", "bdo", "button", "b", "canvas", "cite", "code", "data", "datalist", "del", "dfn", "em", "ins", "i", "kbd",
             "label", "map", "mark", "meter", "object", "output", "progress", "q", "ruby", "samp", "select", "small", "span", "strong", "sub", "sup",
             "time", "var", "video"}

\* --------------------------------------------------------------------- source
Dot(x) == IF x THEN ".. " ELSE ". "

CellPre(c) ==
  LET pre == (IF c.h THEN "_" ELSE "") \o AttsSrc(c.a)
  IN IF pre = "" THEN "" ELSE pre \o ". "
ListSrc(its) == Join([i \in 1..Len(its) |-> its[i].m \o its[i].st \o AttsSrc(its[i].a) \o " " \o Srcs(its[i].b)], "\n")
\* a cell holds a phrase or a list
HoldsList(c) == Len(c.b) = 1 /\ c.b[1].k = "ls"
CellSrc(c) == CellPre(c) \o (IF HoldsList(c) THEN ListSrc(c.b[1].i) ELSE Srcs(c.b))
RowSrc(r) ==
  (IF r.sec = "" THEN "" ELSE "|" \o r.sec \o AttsSrc(r.sa) \o ".\n")
  \o (IF r.a = << >> THEN "" ELSE AttsSrc(r.a) \o ". ")
  \o "|" \o Join([i \in 1..Len(r.c) |-> CellSrc(r.c[i])], "|") \o "|"
ColSrc(c, first) ==
  (IF c.span = "" THEN "" ELSE "\\" \o c.span) \o AttsSrc(c.a)
  \o (IF first THEN ". " ELSE IF c.span = "" /\ c.a = << >> THEN "" ELSE ". ") \o c.width
TbSrc(t) ==
  (IF t.y THEN "table" \o AttsSrc(t.a) \o "." \o (IF t.sum = "" THEN "" ELSE " " \o t.sum) \o "\n" ELSE "")
  \o (IF t.cap.y THEN "|=" \o AttsSrc(t.cap.a) \o ". " \o t.cap.s \o " |\n" ELSE "")
  \o (IF t.cols = << >> THEN ""
      ELSE "|:" \o Join([i \in 1..Len(t.cols) |-> ColSrc(t.cols[i], i = 1)], "|") \o "|\n")
  \o Join([i \in 1..Len(t.r) |-> RowSrc(t.r[i])], "\n")

NlSrc(n) ==
  "notelist" \o AttsSrc(n.a) \o (IF n.start = "" THEN "" ELSE ":" \o n.start)
  \o n.link \o (IF n.plus THEN "+" ELSE "") \o "."

BSrc(b) ==
  CASE b.k = "p" -> Srcs(b.b)
    [] b.k = "px" -> "p" \o AttsSrc(b.a) \o Dot(b.x) \o Srcs(b.b)
    [] b.k = "h" -> "h" \o b.n \o AttsSrc(b.a) \o Dot(b.x) \o Srcs(b.b)
    [] b.k = "bq" -> "bq" \o AttsSrc(b.a) \o "." \o (IF b.x THEN "." ELSE "")
                     \o (IF b.url.s = "none" THEN "" ELSE ":" \o b.url.u) \o " " \o Srcs(b.b)
    [] b.k = "bc" -> "bc" \o AttsSrc(b.a) \o Dot(b.x) \o b.s
    [] b.k = "pre" -> "pre" \o AttsSrc(b.a) \o Dot(b.x) \o b.s
    [] b.k = "ntb" -> "notextile" \o Dot(b.x) \o b.s
    [] b.k = "cm" -> "###" \o Dot(b.x) \o b.s
    [] b.k = "fn" -> "fn" \o b.n \o AttsSrc(b.a) \o (IF b.back THEN "^" ELSE "") \o ". " \o Srcs(b.b)
    [] b.k = "nd" -> "note#" \o b.l \o b.link \o AttsSrc(b.a) \o ". " \o Srcs(b.b)
    [] b.k = "nl" -> NlSrc(b)
    [] b.k = "ls" -> ListSrc(b.i)
    [] b.k = "tb" -> TbSrc(b)
    [] b.k = "dl" -> Join([i \in 1..Len(b.i) |->
                           Join([j \in 1..Len(b.i[i].pre) |-> "- " \o Srcs(b.i[i].pre[j]) \o "\n"], "")
                           \o "-" \o AttsSrc(b.i[i].a) \o " " \o Srcs(b.i[i].t)
                           \o (IF b.i[i].w THEN " :=\n" ELSE " := ") \o Srcs(b.i[i].d)
                           \o (IF b.i[i].w THEN " =:" ELSE "")], "\n")
    [] b.k = "al" -> "[" \o b.n \o "]" \o b.url.u
    [] b.k = "html" -> b.s
    [] b.k = "sps" -> " " \o Srcs(b.b)
    [] b.k = "hb" -> HOpenSrc(b) \o Srcs(b.b) \o HCloseSrc(b)
    [] b.k = "ho" -> HOpenSrc(b)
    [] b.k = "hc" -> HCloseSrc(b)

DocSrc(doc) == Join([i \in 1..Len(doc) |-> BSrc(doc[i])], "\n\n")

\* A block which has no explicit block tag continues an extended block.
Anonymous(b) == b.k \in {"p", "ls", "tb", "dl", "al", "html", "sps", "nd", "nl", "hb", "ho", "hc"}
Verbatim(k) == k \in {"bc", "pre", "ntb"}

\* --------------------------------------------------------------------- lists
IsOl(m) == Ch(m, Len(m)) = "#"
IsDl(m) == Ch(m, Len(m)) \in {";", ":"}
ListTag(m) == IF IsDl(m) THEN "dl" ELSE IF IsOl(m) THEN "ol" ELSE "ul"
ItemTag(m) == CASE Ch(m, Len(m)) = ";" -> "dt" [] Ch(m, Len(m)) = ":" -> "dd" [] OTHER -> "li"

\* A list is well-formed when it starts at level 1, goes deeper one level at
\* a time, and all the items of one (sub)list are of the same kind.
SameKind(x, y) == ListTag(x) = ListTag(y)
WellFormedList(it) ==
  /\ Len(it) > 0 /\ Len(it[1].m) = 1
  /\ \A i \in 2..Len(it) :
       /\ Len(it[i].m) <= Len(it[i - 1].m) + 1
       /\ IF Len(it[i].m) > Len(it[i - 1].m)
          THEN /\ SubSeq(it[i].m, 1, Len(it[i].m) - 1) = it[i - 1].m
               /\ ~IsDl(it[i - 1].m)
          ELSE LET l == Len(it[i].m)
                   p == SubSeq(it[i - 1].m, 1, l)
               IN /\ SubSeq(p, 1, l - 1) = SubSeq(it[i].m, 1, l - 1)
                  /\ SameKind(p, it[i].m)
       /\ (it[i].st # "" => IsOl(it[i].m) /\ Len(it[i].m) > Len(it[i - 1].m))
  /\ (it[1].st # "" => IsOl(it[1].m))

\* the level of the item before the i-th one
PrevLevel(it, i) == IF i = 1 THEN 0 ELSE Len(it[i - 1].m)

RECURSIVE CloseTo(_, _)
\* closes the items and the lists of marker m which are deeper than level l
CloseTo(m, l) ==
  IF Len(m) <= l THEN << >>
  ELSE C(ItemTag(m)) \o C(ListTag(m)) \o CloseTo(SubSeq(m, 1, Len(m) - 1), l)

OlStart(st, item) ==
  IF item.st = "" THEN 1
  ELSE IF item.st = "_" THEN (IF Has(st.ol, item.m) THEN st.ol[item.m] ELSE 1)
  ELSE item.start

RECURSIVE RItems(_, _, _, _)
RItems(cfg, st, it, i) ==
  IF i > Len(it) THEN R(CloseTo(it[Len(it)].m, 0), st)
  ELSE
    LET item == it[i]
        m == item.m
        l == Len(m)
        pl == PrevLevel(it, i)
        opens == l > pl
        start == OlStart(st, item)
        cur == IF opens THEN start ELSE st.ol[m]
        st1 == IF IsOl(m) THEN [st EXCEPT !.ol = (m :> cur + 1) @@ @] ELSE st
        body == Inl(cfg, st1, item.b)
        atts == AttsHtml(cfg, item.a)
        latts == (IF IsOl(m) /\ item.st # "" THEN A("start", ToString(start)) ELSE NoA) @@ atts
        before == IF opens THEN << >>
                  ELSE CloseTo(it[i - 1].m, l) \o C(ItemTag(SubSeq(it[i - 1].m, 1, l)))
        open == IF opens THEN O(ListTag(m), latts) \o O(ItemTag(m), NoA)
                         ELSE O(ItemTag(m), atts)
        rest == RItems(cfg, body.st, it, i + 1)
    IN R(before \o open \o body.o \o rest.o, rest.st)

\* --------------------------------------------------------------------- tables
SecTag(s) == CASE s = "^" -> "thead" [] s = "-" -> "tbody" [] s = "~" -> "tfoot"

RECURSIVE RCells(_, _, _, _)
RCells(cfg, st, cs, i) ==
  IF i > Len(cs) THEN R(<< >>, st)
  ELSE LET body == IF HoldsList(cs[i]) THEN RItems(cfg, st, cs[i].b[1].i, 1) ELSE Inl(cfg, st, cs[i].b)
           rest == RCells(cfg, body.st, cs, i + 1)
       IN R(El(IF cs[i].h THEN "th" ELSE "td", AttsHtml(cfg, cs[i].a), body.o) \o rest.o, rest.st)

RECURSIVE RRows(_, _, _, _, _)
\* sec - the tag of the open section, if any
RRows(cfg, st, rs, i, sec) ==
  IF i > Len(rs) THEN R(IF sec = "" THEN << >> ELSE C(sec), st)
  ELSE LET r == rs[i]
           cells == RCells(cfg, st, r.c, 1)
           row == El("tr", AttsHtml(cfg, r.a), cells.o)
           change == IF r.sec = "" THEN << >>
                     ELSE (IF sec = "" THEN << >> ELSE C(sec)) \o O(SecTag(r.sec), AttsHtml(cfg, r.sa))
           rest == RRows(cfg, cells.st, rs, i + 1, IF r.sec = "" THEN sec ELSE SecTag(r.sec))
       IN R(change \o row \o rest.o, rest.st)

ColAtts(cfg, c) == AttsHtml(cfg, c.a)
  @@ (IF c.span = "" THEN NoA ELSE A("span", c.span))
  @@ (IF c.width = "" THEN NoA ELSE A("width", c.width))

RTable(cfg, st, t) ==
  LET rows == RRows(cfg, st, t.r, 1, "")
      atts == AttsHtml(cfg, t.a) @@ (IF t.sum = "" THEN NoA ELSE A("summary", t.sum))
      cap == IF t.cap.y THEN El("caption", AttsHtml(cfg, t.cap.a), T(t.cap.s)) ELSE << >>
      cols == IF t.cols = << >> THEN << >>
              ELSE O("colgroup", ColAtts(cfg, t.cols[1]))
                   \o Flat([i \in 1..(Len(t.cols) - 1) |-> V("col", ColAtts(cfg, t.cols[i + 1]))])
                   \o C("colgroup")
  IN R(El("table", atts, cap \o cols \o rows.o), rows.st)

\* ----------------------------------------------------- definition lists ("- a := b")
RECURSIVE RTerms(_, _, _, _), RDefs(_, _, _, _)
RTerms(cfg, st, ts, i) ==
  IF i > Len(ts) THEN R(<< >>, st)
  ELSE LET t == Inl(cfg, st, ts[i])
           rest == RTerms(cfg, t.st, ts, i + 1)
       IN R(El("dt", NoA, t.o) \o rest.o, rest.st)
RDefs(cfg, st, it, i) ==
  IF i > Len(it) THEN R(<< >>, st)
  ELSE LET p == RTerms(cfg, st, it[i].pre, 1)
           t == Inl(cfg, p.st, it[i].t)
           d == Inl(cfg, t.st, it[i].d)
           rest == RDefs(cfg, d.st, it, i + 1)
       IN R(p.o \o El("dt", AttsHtml(cfg, it[i].a), t.o)
            \o El("dd", NoA, IF it[i].w THEN El("p", NoA, d.o) ELSE d.o) \o rest.o, rest.st)

\* ------------------------------------------------------------------ footnotes
RFoot(cfg, st, b) ==
  LET known == Has(st.fns, b.n)
      id == IF known THEN st.fns[b.n] ELSE NewId(cfg, st)
      st1 == IF known THEN st ELSE Bump(st)
      base == AttsHtml(cfg, b.a)
      own == Has(base, "id")
      patts == base @@ A("class", "footnote") @@ A("id", "fn" \o id)
      num == IF b.back THEN El("a", A("href", "#fnrev" \o id), T(b.n)) ELSE T(b.n)
      sup == El("sup", IF own THEN A("id", "fn" \o id) ELSE NoA, num)
      body == Inl(cfg, st1, b.b)
  IN R(El("p", patts, sup \o T(" ") \o body.o), body.st)

\* ------------------------------------------------------------------- endnotes
RNoteDef(cfg, st, b) ==
  LET known == NoteIx(st, b.l) # {}
      st1 == IF known THEN st
             ELSE [Bump(st) EXCEPT !.notes = Append(@, [NewNote(b.l) EXCEPT !.id = NewId(cfg, st)])]
      i == CHOOSE j \in NoteIx(st1, b.l) : TRUE
      body == Inl(cfg, st1, b.b)
      \* the first definition of a note wins
  IN IF st1.notes[i].def THEN R(<< >>, body.st)
     ELSE R(<< >>, [body.st EXCEPT !.notes[i] =
                      [@ EXCEPT !.def = TRUE, !.o = body.o, !.a = b.a, !.link = b.link]])

\* ------------------------------------------------------------ extended blocks
\* Closing tags of the extended block which is open in state st.
CloseExt(st) ==
  CASE st.ext.k = "bq" -> C("blockquote")
    [] st.ext.k = "bc" -> C("code") \o C("pre")
    [] st.ext.k = "pre" -> C("pre")
    [] OTHER -> << >>

Open(st, b) == [st EXCEPT !.ext = IF b.x THEN [k |-> b.k, a |-> b.a] ELSE NoExt]

\* The parts of code blocks
BcOpen(cfg, a) ==
  LET noLang == SelectSeq(a, LAMBDA p : p[1] # "lang")
  IN O("pre", AttsHtml(cfg, noLang))
     \o O("code", IF "lang" \in Kinds(a) THEN A("class", PartOf(a, "lang")[2]) ELSE NoA)

\* An explicitly tagged block (after the previous extended block is closed)
RTagged(cfg, st0, b) ==
  CASE b.k = "px" ->
         LET st == Open(st0, b)  r == Inl(cfg, st, b.b)
         IN R(El("p", AttsHtml(cfg, b.a), r.o), r.st)
    [] b.k = "h" ->
         LET st == [st0 EXCEPT !.ext = IF b.x THEN [k |-> "h" \o b.n, a |-> b.a] ELSE NoExt]
             r == Inl(cfg, st, b.b)
         IN R(El("h" \o b.n, AttsHtml(cfg, b.a), r.o), r.st)
    [] b.k = "bq" ->
         LET st == Open(st0, b)
             r == Inl(cfg, st, b.b)
             cite == IF b.url.s # "none" /\ UrlOk(cfg, b.url) THEN A("cite", b.url.h) ELSE NoA
             atts == AttsHtml(cfg, b.a)
         IN R(O("blockquote", cite @@ atts) \o El("p", atts, r.o)
              \o (IF b.x THEN << >> ELSE C("blockquote")), r.st)
    [] b.k = "bc" ->
         LET st == Open(st0, b)
         IN R(BcOpen(cfg, b.a) \o T(b.s) \o (IF b.x THEN << >> ELSE C("code") \o C("pre")), st)
    [] b.k = "pre" ->
         LET st == Open(st0, b)
         IN R(O("pre", AttsHtml(cfg, b.a)) \o T(b.s) \o (IF b.x THEN << >> ELSE C("pre")), st)
    [] b.k = "ntb" ->
         R(IF cfg.restricted THEN T(b.s) ELSE b.o,
           [st0 EXCEPT !.ext = IF b.x THEN [k |-> "ntb", a |-> << >>] ELSE NoExt])
    [] b.k = "cm" ->
         R(<< >>, [st0 EXCEPT !.ext = IF b.x THEN [k |-> "cm", a |-> << >>] ELSE NoExt])
    [] b.k = "fn" -> RFoot(cfg, [st0 EXCEPT !.ext = NoExt], b)

\* The HTML of the author.  A block-level tag needs no paragraph around it, a
\* tag of a phrase is a part of a paragraph, a block in any other tag is left
\* alone (and, with raw_blocks, so is everything within).
NoBreaks(o) == [i \in 1..Len(o) |-> IF o[i] = Br[1] THEN T("\n")[1] ELSE o[i]]
\* Textile which is left as it is written, with HTML in it
AsIs(b) == Flat([i \in 1..Len(b) |-> (IF b[i].k = "raw" THEN b[i].o ELSE T(Src(b[i])))
                                      \o (IF i < Len(b) /\ SpaceBetween(b[i], b[i + 1]) THEN T(" ") ELSE << >>)])
RHtml(cfg, st, b) ==
  LET r == Inl(cfg, st, b.b)
      whole == O(b.t, HAtts(b.a, 1)) \o r.o \o C(b.t)
  IN IF cfg.restricted THEN R(El("p", NoA, T(HOpenSrc(b)) \o r.o \o T(HCloseSrc(b))), r.st)
     ELSE IF b.t \in {"p", "h1", "h2", "h3", "h4", "h5", "h6"} THEN R(whole, r.st)
     ELSE IF b.t \in BlockLevel THEN R(NoBreaks(whole), r.st)
     ELSE IF b.t \in Phrasing THEN R(El("p", NoA, whole), r.st)
     ELSE IF cfg.raw_blocks THEN R(El(b.t, HAtts(b.a, 1), AsIs(b.b)), st)
     ELSE R(NoBreaks(whole), r.st)
Unwrapped(cfg, n) ==
  IF cfg.restricted THEN FALSE
  ELSE IF n.k = "pret" THEN ~cfg.lite
  ELSE IF n.k = "raw" THEN \E i \in 1..Len(n.o) : IsTag(n.o[i]) /\ n.o[i][2] \in BlockLevel
  ELSE FALSE

\* A block without a tag, not within an extended one
RAnonymous(cfg, st, b) ==
  CASE b.k = "p" ->
         \* a block can't be a part of a paragraph
         LET r == Inl(cfg, st, b.b)
             pre == \E i \in 1..Len(b.b) : Unwrapped(cfg, b.b[i])
         IN R(IF pre THEN r.o ELSE El("p", NoA, r.o), r.st)
    [] b.k = "ls" -> RItems(cfg, st, b.i, 1)
    [] b.k = "tb" -> RTable(cfg, st, b)
    [] b.k = "dl" -> LET r == RDefs(cfg, st, b.i, 1) IN R(El("dl", NoA, r.o), r.st)
    [] b.k = "al" -> R(<< >>, [st EXCEPT !.al = (b.n :> [h |-> b.url.h, shown |-> b.shown]) @@ @])
    [] b.k = "html" -> R(IF cfg.restricted THEN El("p", NoA, T(b.s)) ELSE b.o, st)
    [] b.k = "sps" -> Inl(cfg, st, b.b)
    [] b.k = "hb" -> RHtml(cfg, st, b)
    [] b.k \in {"ho", "hc"} ->
         R(IF cfg.restricted THEN El("p", NoA, T(BSrc(b))) ELSE IF b.k = "ho" THEN O(b.t, HAtts(b.a, 1)) ELSE C(b.t), st)
    [] b.k = "nd" -> RNoteDef(cfg, st, b)
    [] b.k = "nl" -> R(<< <<"nlist", b>> >>, st)

\* A block without a tag which continues an extended one
RContinued(cfg, st, b) ==
  LET k == st.ext.k
  IN CASE k = "cm" -> R(<< >>, st)
       [] k \in {"bc", "pre"} -> R(T("\n\n" \o BSrc(b)), st)
       [] k = "ntb" -> R(IF cfg.restricted THEN T("\n\n" \o BSrc(b)) ELSE T("\n\n") \o b.o, st)
       [] k \in {"px", "bq"} ->
            LET r == Inl(cfg, st, b.b) IN R(El("p", AttsHtml(cfg, st.ext.a), r.o), r.st)
       [] OTHER -> LET r == Inl(cfg, st, b.b) IN R(El(k, AttsHtml(cfg, st.ext.a), r.o), r.st)

\* Which blocks may follow in state st: the continuation of a quotation, a
\* paragraph or a heading is a paragraph; anything may be a part of a code
\* block or of a comment; a verbatim block is continued by raw HTML.
MayFollow(st, b) ==
  \/ ~Anonymous(b)
  \/ st.ext.k \in {"none", "cm", "bc", "pre"}
  \/ st.ext.k = "ntb" /\ b.k = "html"
  \/ b.k = "p" /\ st.ext.k # "ntb"

\* In lite mode only paragraphs, quotations and code blocks are blocks;
\* everything else is an ordinary paragraph of the same text: the markup of
\* the block stays as it is written, the phrases within are still phrases.
LiteLiteral(cfg, b) == cfg.lite /\ b.k \in {"h", "pre", "ntb", "cm", "fn", "ls", "tb", "dl"}

RECURSIVE Lines(_, _)
Lines(s, i) ==   \* text with line breaks; none before a line which starts with "|" or white space
  IF s = "" THEN << >>
  ELSE IF i > Len(s) THEN T(s)
  ELSE IF Ch(s, i) = "\n" /\ i < Len(s) /\ Ch(s, i + 1) \in {"|", " ", "\t"} THEN T(SubSeq(s, 1, i)) \o Lines(SubSeq(s, i + 1, Len(s)), 1)
  ELSE IF Ch(s, i) = "\n" THEN T(SubSeq(s, 1, i - 1)) \o Br \o Lines(SubSeq(s, i + 1, Len(s)), 1)
  ELSE Lines(s, i + 1)

\* pieces: <<"s", text>> or <<"b", inline nodes>>
RECURSIVE RPieces(_, _, _, _)
RPieces(cfg, st, ps, i) ==
  IF i > Len(ps) THEN R(<< >>, st)
  ELSE LET x == IF ps[i][1] = "s" THEN R(Lines(ps[i][2], 1), st) ELSE Inl(cfg, st, ps[i][2])
           y == RPieces(cfg, x.st, ps, i + 1)
       IN R(x.o \o y.o, y.st)
NlAfter(n, i) == IF i = n THEN "" ELSE "\n"
LitePieces(b) ==
  CASE b.k = "h" -> << <<"s", "h" \o b.n \o AttsSrc(b.a) \o Dot(b.x)>>, <<"b", b.b>> >>
    [] b.k = "fn" -> << <<"s", "fn" \o b.n \o AttsSrc(b.a) \o (IF b.back THEN "^" ELSE "") \o ". ">>, <<"b", b.b>> >>
    [] b.k = "ls" -> Flat([i \in 1..Len(b.i) |->
         << <<"s", b.i[i].m \o b.i[i].st \o AttsSrc(b.i[i].a) \o " ">>, <<"b", b.i[i].b>>, <<"s", NlAfter(Len(b.i), i)>> >>])
    [] b.k = "dl" -> Flat([i \in 1..Len(b.i) |->
         Flat([j \in 1..Len(b.i[i].pre) |-> << <<"s", "- ">>, <<"b", b.i[i].pre[j]>>, <<"s", "\n">> >>])
         \o << <<"s", "-" \o AttsSrc(b.i[i].a) \o " ">>, <<"b", b.i[i].t>>, <<"s", IF b.i[i].w THEN " :=\n" ELSE " := ">>,
               <<"b", b.i[i].d>>, <<"s", IF b.i[i].w THEN " =:" ELSE "">>, <<"s", NlAfter(Len(b.i), i)>> >>])
    [] b.k = "tb" /\ ~b.y /\ ~b.cap.y /\ b.cols = << >> -> Flat([i \in 1..Len(b.r) |->
         \* a line which starts with "|" is not preceded by a line break
         << <<"s", (IF b.r[i].sec = "" THEN "" ELSE "|" \o b.r[i].sec \o AttsSrc(b.r[i].sa) \o "."
                                                   \o (IF b.r[i].a = << >> THEN " " ELSE "\n"))
                   \o (IF b.r[i].a = << >> THEN "" ELSE AttsSrc(b.r[i].a) \o ". ") \o "|">> >>
         \o Flat([j \in 1..Len(b.r[i].c) |->
              << <<"s", CellPre(b.r[i].c[j])>>, <<"b", b.r[i].c[j].b>>, <<"s", "|">> >>])
         \o << <<"s", IF i = Len(b.r) THEN "" ELSE IF b.r[i + 1].sec = "" /\ b.r[i + 1].a # << >> THEN "\n" ELSE " ">> >>])
    [] OTHER -> << <<"s", BSrc(b)>> >>
RLite(cfg, st, b) ==
  IF st.ext.k = "bc" THEN R(T("\n\n" \o BSrc(b)), st)
  ELSE LET r == RPieces(cfg, st, LitePieces(b), 1)
       IN R(El("p", IF st.ext.k \in {"px", "bq"} THEN AttsHtml(cfg, st.ext.a) ELSE NoA, r.o), r.st)

\* Without block tags there are no blocks at all
PlainPieces(b) ==
  CASE b.k \in {"p", "sps"} -> << <<"b", b.b>> >>
    [] b.k = "px" -> << <<"s", "p" \o AttsSrc(b.a) \o Dot(b.x)>>, <<"b", b.b>> >>
    [] b.k = "bq" -> << <<"s", "bq" \o AttsSrc(b.a) \o "." \o (IF b.x THEN "." ELSE "")
                               \o (IF b.url.s = "none" THEN "" ELSE ":" \o b.url.u) \o " ">>, <<"b", b.b>> >>
    [] b.k = "nd" -> << <<"s", "note#" \o b.l \o b.link \o AttsSrc(b.a) \o ". ">>, <<"b", b.b>> >>
    [] b.k = "html" -> << <<"b", <<Raw(b.s, b.o)>> >> >>
    [] b.k = "hb" -> << <<"b", <<Raw(HOpenSrc(b), O(b.t, HAtts(b.a, 1)))>> >>, <<"b", b.b>>, <<"b", <<Raw(HCloseSrc(b), C(b.t))>> >> >>
    [] OTHER -> LitePieces(b)
RECURSIVE RPlain(_, _, _, _)
RPlain(cfg, st, ps, i) ==
  IF i > Len(ps) THEN R(<< >>, st)
  ELSE LET x == IF ps[i][1] = "s" THEN R(T(ps[i][2]), st) ELSE Inl(cfg, st, ps[i][2])
           y == RPlain(cfg, x.st, ps, i + 1)
       IN R(x.o \o y.o, y.st)

RBlock(cfg, st, b) ==
  IF ~cfg.block_tags
  THEN LET r == RPlain(cfg, st, PlainPieces(b), 1) IN R(T("\n") \o r.o, r.st)
  ELSE IF LiteLiteral(cfg, b) THEN RLite(cfg, st, b)
  ELSE IF Anonymous(b)
  THEN IF st.ext.k = "none" THEN LET r == RAnonymous(cfg, st, b) IN R(T("\n") \o r.o, r.st)
       ELSE RContinued(cfg, st, b)
  ELSE LET r == RTagged(cfg, st, b) IN R(CloseExt(st) \o T("\n") \o r.o, r.st)

\* ------------------------------------------------------- the end of the document
Letters == "abcdefghijklmnopqrstuvwxyz"
Symbols == {"¤", "§", "µ", "¶", "†", "‡", "•", "∗", "∴", "◊", "♠", "♣", "♥", "♦"}
\* the n-th mark (from 0) when counting from mark c
Mark(c, n) ==
  IF c \in Symbols THEN c
  ELSE IF \E i \in 1..Len(Digits) : Ch(Digits, i) = c THEN Ch(Digits, IndexIn(Digits, c) + n)
  ELSE Ch(Letters, IndexIn(Letters, c) + n)

BackLink(id, mark) == El("sup", NoA, El("a", A("href", "#noteref" \o id), T(mark)))

BackLinks(note, list) ==
  LET kind == IF note.link # "" THEN note.link ELSE list.link
      start == IF list.start = "" THEN "a" ELSE list.start
      n == Len(note.refs)
  IN CASE kind = "!" -> << >>
       [] kind = "^" -> IF n = 0 THEN << >> ELSE BackLink(note.refs[1], start)
       [] OTHER -> Flat([i \in 1..n |-> (IF i > 1 THEN T(" ") ELSE << >>)
                                         \o BackLink(note.refs[i], Mark(start, i - 1))])

NoteItem(cfg, note, list) ==
  IF note.def
  THEN El("li", AttsHtml(cfg, note.a),
          BackLinks(note, list) \o El("span", A("id", "note" \o note.id), T(" ")) \o note.o)
  ELSE El("li", NoA, BackLinks(note, list) \o T(" Undefined Note [#" \o note.l \o "]."))

\* Labels of the model, in alphabetical order
CONSTANT LabelOrder
NoteList(cfg, st, list) ==
  LET bySeq == [i \in 1..st.nseq |-> st.notes[CHOOSE j \in 1..Len(st.notes) : st.notes[j].seq = i]]
      cited == Flat([i \in 1..st.nseq |-> NoteItem(cfg, bySeq[i], list)])
      loose == SelectSeq(LabelOrder, LAMBDA l : \E j \in NoteIx(st, l) : st.notes[j].seq = 0)
      uncited == IF ~list.plus THEN << >>
                 ELSE Flat([i \in 1..Len(loose) |->
                        LET note == st.notes[CHOOSE j \in NoteIx(st, loose[i]) : TRUE]
                        IN El("li", AttsHtml(cfg, note.a), note.o)])
  IN IF cited \o uncited = << >> THEN << >>
     ELSE El("ol", AttsHtml(cfg, list.a), cited \o uncited)

ResolveTok(st, t) ==
  IF IsTag(t) /\ Has(t[3], "href") /\ StartsWith(t[3]["href"], "alias:")
  THEN LET n == SubSeq(t[3]["href"], 7, Len(t[3]["href"]))
       IN <<t[1], t[2], ("href" :> (IF Has(st.al, n) THEN st.al[n].h ELSE n)) @@ t[3]>>
  ELSE t

Finish(cfg, st, out) ==
  LET closed == out \o CloseExt(st)
      placed == Flat([i \in 1..Len(closed) |->
                  IF closed[i][1] = "nlist" THEN NoteList(cfg, st, closed[i][2]) ELSE <<closed[i]>>])
  IN [i \in 1..Len(placed) |-> ResolveTok(st, placed[i])]
=============================================================================
