------------------------------- MODULE Inline -------------------------------
(***************************************************************************)
(* Inline Textile: attribute lists and phrase-level constructs.            *)
(*                                                                         *)
(* Every construct is a node of an abstract syntax tree.  `Src` gives the  *)
(* Textile source an author writes for it; `RIn` gives its meaning: the    *)
(* HTML tokens it stands for, in a configuration and an abstract parser    *)
(* state, together with the next parser state.                             *)
(***************************************************************************)
EXTENDS Html

\* ----------------------------------------------------------------- settings
Cfg0 == [restricted |-> FALSE, lite |-> FALSE, images |-> TRUE, html |-> "html5",
         rel |-> "", block_tags |-> TRUE, align_class |-> "unset", raw_blocks |-> FALSE,
         sanitize |-> FALSE, uid |-> "uid0"]

\* ------------------------------------------------------ abstract parser state
\* ctr   - the number of identifiers generated so far
\* fns   - footnote number -> identifier of its first reference
\* notes - the endnotes, in the order they have been met
\* nseq  - the number of endnotes referenced so far
\* al    - link alias -> URL
\* ol    - list marker -> the number of the next item
\* ext   - the extended block which is still open (if any)
NoExt == [k |-> "none", a |-> << >>]
St0 == [ctr |-> 0, fns |-> NoA, notes |-> << >>, nseq |-> 0, al |-> NoA,
        ol |-> NoA, ext |-> NoExt]

Has(f, k) == k \in DOMAIN f

\* ------------------------------------------------------------ attribute lists
\* An attribute list is a sequence of parts:
\*   <<"cls", c>>  <<"id", i>>  <<"ci", c, i>>  <<"sty", s>>  <<"lang", l>>
\*   <<"al", "<">> <<"pl", n>>  <<"pr", n>>     <<"va", "^">>
\*   <<"cs", n>>   <<"rs", n>>  (cell spans)
AttSrc(p) ==
  CASE p[1] = "cls" -> "(" \o p[2] \o ")"
    [] p[1] = "id" -> "(#" \o p[2] \o ")"
    [] p[1] = "ci" -> "(" \o p[2] \o "#" \o p[3] \o ")"
    [] p[1] = "sty" -> "{" \o p[2] \o "}"
    [] p[1] = "lang" -> "[" \o p[2] \o "]"
    [] p[1] \in {"al", "va"} -> p[2]
    [] p[1] = "pl" -> Rep("(", p[2])
    [] p[1] = "pr" -> Rep(")", p[2])
    [] p[1] = "cs" -> "\\" \o p[2]
    [] p[1] = "rs" -> "/" \o p[2]
AttsSrc(a) == Join([i \in 1..Len(a) |-> AttSrc(a[i])], "")

Kinds(a) == {a[i][1] : i \in 1..Len(a)}
PartOf(a, k) == a[CHOOSE i \in 1..Len(a) : a[i][1] = k]

AlignName(x) == CASE x = "<" -> "left" [] x = ">" -> "right" [] x = "=" -> "center" [] x = "<>" -> "justify"
VAlignName(x) == CASE x = "^" -> "top" [] x = "-" -> "middle" [] x = "~" -> "bottom"

\* The style an attribute list stands for.  Author-written styles are
\* dropped in restricted mode.
StyleOf(cfg, a) ==
  LET ks == Kinds(a)
      parts == (IF "va" \in ks THEN <<"vertical-align:" \o VAlignName(PartOf(a, "va")[2])>> ELSE << >>)
            \o (IF "sty" \in ks /\ ~cfg.restricted THEN <<PartOf(a, "sty")[2]>> ELSE << >>)
            \o (IF "pl" \in ks THEN <<"padding-left:" \o ToString(PartOf(a, "pl")[2]) \o "em">> ELSE << >>)
            \o (IF "pr" \in ks THEN <<"padding-right:" \o ToString(PartOf(a, "pr")[2]) \o "em">> ELSE << >>)
            \o (IF "al" \in ks THEN <<"text-align:" \o AlignName(PartOf(a, "al")[2])>> ELSE << >>)
  IN IF parts = << >> THEN "" ELSE Join(parts, "; ") \o ";"

\* The HTML attributes an attribute list stands for.
AttsHtml(cfg, a) ==
  LET ks == Kinds(a)
      style == StyleOf(cfg, a)
  IN (IF "cls" \in ks /\ ~cfg.restricted THEN A("class", PartOf(a, "cls")[2]) ELSE NoA)
  @@ (IF "ci" \in ks /\ ~cfg.restricted
      THEN A("class", PartOf(a, "ci")[2]) @@ A("id", PartOf(a, "ci")[3]) ELSE NoA)
  @@ (IF "id" \in ks /\ ~cfg.restricted THEN A("id", PartOf(a, "id")[2]) ELSE NoA)
  @@ (IF "lang" \in ks THEN A("lang", PartOf(a, "lang")[2]) ELSE NoA)
  @@ (IF style # "" THEN A("style", style) ELSE NoA)
  @@ (IF "cs" \in ks THEN A("colspan", PartOf(a, "cs")[2]) ELSE NoA)
  @@ (IF "rs" \in ks THEN A("rowspan", PartOf(a, "rs")[2]) ELSE NoA)

\* ----------------------------------------------------------------------- URLs
RestrictedSchemes == {"http", "https", "ftp", "mailto"}
OpenSchemes == RestrictedSchemes \cup {"file", "tel", "callto", "sftp", "data"}
AllowedSchemes(cfg) == IF cfg.restricted THEN RestrictedSchemes ELSE OpenSchemes
\* A URL of the model: [u |-> as written, h |-> normalised, s |-> scheme ("" if relative)]
U(u, h, s) == [u |-> u, h |-> h, s |-> s]
UrlOk(cfg, url) == url.s = "" \/ url.s \in AllowedSchemes(cfg)
NoUrl == U("", "", "none")

\* An alias resolves to the URL it is (finally) defined to be; see Blocks!Finish.
Href(url) == url.h

\* ---------------------------------------------------------------- constructors
W(s) == [k |-> "w", s |-> s]
Sp(m, a, b) == [k |-> "sp", m |-> m, a |-> a, c |-> "", sq |-> FALSE, b |-> b]
SpC(m, a, c, b) == [k |-> "sp", m |-> m, a |-> a, c |-> c, sq |-> FALSE, b |-> b]
SpSq(m, a, b) == [k |-> "sp", m |-> m, a |-> a, c |-> "", sq |-> TRUE, b |-> b]
Code(s) == [k |-> "code", d |-> "@", s |-> s]
CodeT(s) == [k |-> "code", d |-> "<code>", s |-> s]
PreT(s) == [k |-> "pret", s |-> s]
Nt(d, s, o) == [k |-> "nt", d |-> d, s |-> s, o |-> o]
Ln(a, b, ti, url) == [k |-> "ln", a |-> a, b |-> b, ti |-> ti, url |-> url, sq |-> FALSE]
LnSq(a, b, ti, url) == [k |-> "ln", a |-> a, b |-> b, ti |-> ti, url |-> url, sq |-> TRUE]
\* a link whose text is "$": it shows its own address
LnSelf(url, shown) == [k |-> "lself", url |-> url, shown |-> shown]
\* a definition of an alias among other text
Ald(n, url, shown) == [k |-> "ald", n |-> n, url |-> url, shown |-> shown]
Alias(n) == [u |-> n, h |-> "alias:" \o n, s |-> ""]
Im(al, a, url, ti, hr) == [k |-> "im", al |-> al, a |-> a, url |-> url, ti |-> ti, hr |-> hr, sq |-> FALSE, ts |-> ""]
\* in square brackets; with a space before the title
ImSq(al, a, url, ti, hr) == [Im(al, a, url, ti, hr) EXCEPT !.sq = TRUE]
ImTs(al, a, url, ti, hr) == [Im(al, a, url, ti, hr) EXCEPT !.ts = " "]
Fr(n) == [k |-> "fr", n |-> n, x |-> FALSE]
FrX(n) == [k |-> "fr", n |-> n, x |-> TRUE]
Nr(l) == [k |-> "nr", l |-> l, x |-> FALSE, a |-> << >>]
NrX(l) == [k |-> "nr", l |-> l, x |-> TRUE, a |-> << >>]
Ac(w, ti) == [k |-> "ac", w |-> w, ti |-> ti]
Cp(w) == [k |-> "cp", w |-> w]
Gl(s, o) == [k |-> "gl", s |-> s, o |-> o]
NL == [k |-> "nl"]
\* raw HTML: s as written, o the tokens it denotes
Raw(s, o) == [k |-> "raw", s |-> s, o |-> o]
\* juxtaposition without a space
J(b) == [k |-> "j", b |-> b]
Paren(n) == J(<<W("("), n, W(")")>>)

\* -------------------------------------------------------------- Textile source
RECURSIVE Src(_), SrcsFrom(_, _)
SpaceBetween(x, y) == x.k # "nl" /\ y.k # "nl"
SrcsFrom(b, i) ==
  IF i > Len(b) THEN ""
  ELSE Src(b[i]) \o (IF i < Len(b) /\ SpaceBetween(b[i], b[i + 1]) THEN " " ELSE "")
       \o SrcsFrom(b, i + 1)
Srcs(b) == SrcsFrom(b, 1)

ImgSrc(n) ==
  (IF n.sq THEN "[" ELSE "") \o "!" \o n.al \o AttsSrc(n.a) \o n.url.u
      \o (IF n.ti = "" THEN "" ELSE n.ts \o "(" \o n.ti \o ")") \o "!"
      \o (IF n.hr.s = "none" THEN "" ELSE ":" \o n.hr.u) \o (IF n.sq THEN "]" ELSE "")

Src(n) ==
  CASE n.k = "w" -> n.s
    [] n.k = "sp" ->
         (IF n.sq THEN "[" ELSE "") \o n.m \o AttsSrc(n.a)
         \o (IF n.c = "" THEN "" ELSE ":" \o n.c \o " ") \o Srcs(n.b) \o n.m
         \o (IF n.sq THEN "]" ELSE "")
    [] n.k = "code" -> IF n.d = "@" THEN "@" \o n.s \o "@" ELSE "<code>" \o n.s \o "</code>"
    [] n.k = "pret" -> "<pre>" \o n.s \o "</pre>"
    [] n.k = "nt" -> IF n.d = "==" THEN "==" \o n.s \o "==" ELSE "<notextile>" \o n.s \o "</notextile>"
    [] n.k = "ln" ->
         (IF n.sq THEN "[" ELSE "") \o "\"" \o AttsSrc(n.a) \o Srcs(n.b)
         \o (IF n.ti = "" THEN "" ELSE "(" \o n.ti \o ")") \o "\":" \o n.url.u
         \o (IF n.sq THEN "]" ELSE "")
    [] n.k = "lself" -> "\"$\":" \o n.url.u
    [] n.k = "im" -> ImgSrc(n)
    [] n.k = "ald" -> "[" \o n.n \o "]" \o n.url.u
    [] n.k = "fr" -> "[" \o n.n \o (IF n.x THEN "!" ELSE "") \o "]"
    [] n.k = "nr" -> "[" \o AttsSrc(n.a) \o "#" \o n.l \o (IF n.x THEN "!" ELSE "") \o "]"
    [] n.k = "ac" -> n.w \o "(" \o n.ti \o ")"
    [] n.k = "cp" -> n.w
    [] n.k = "gl" -> n.s
    [] n.k = "nl" -> "\n"
    [] n.k = "raw" -> n.s
    [] n.k = "j" -> Join([i \in 1..Len(n.b) |-> Src(n.b[i])], "")

\* --------------------------------------------------------------------- meaning
SpanTag(m) ==
  CASE m = "*" -> "strong" [] m = "**" -> "b" [] m = "_" -> "em" [] m = "__" -> "i"
    [] m = "??" -> "cite" [] m = "-" -> "del" [] m = "+" -> "ins" [] m = "^" -> "sup"
    [] m = "~" -> "sub" [] m = "%" -> "span"

RelAtt(cfg) == IF cfg.rel = "" THEN NoA ELSE A("rel", cfg.rel)
NewId(cfg, st) == cfg.uid \o "-" \o ToString(st.ctr + 1)
Bump(st) == [st EXCEPT !.ctr = @ + 1]

UseAlignClass(cfg) ==
  IF cfg.align_class = "unset" THEN cfg.html = "html5" ELSE cfg.align_class = "on"

ImgHtml(cfg, n) ==
  LET base == AttsHtml(cfg, n.a)
      al == IF n.al = "" THEN NoA
            ELSE IF UseAlignClass(cfg)
            THEN A("class", IF Has(base, "class") THEN base["class"] \o " align-" \o AlignName(n.al)
                                                  ELSE "align-" \o AlignName(n.al))
            ELSE A("align", AlignName(n.al))
      \* with the setting for it, the size of an image which can be read
      size == IF Has(cfg, "get_sizes") /\ Has(n.url, "wh")
              THEN A("width", n.url.wh[1]) @@ A("height", n.url.wh[2]) ELSE NoA
      img == V("img", A("src", n.url.h) @@ A("alt", n.ti)
                      @@ (IF n.ti = "" THEN NoA ELSE A("title", n.ti)) @@ size @@ al @@ base)
  IN IF n.hr.s = "none" THEN img
     ELSE El("a", A("href", n.hr.h) @@ RelAtt(cfg), img)

NoteIx(st, l) == {i \in 1..Len(st.notes) : st.notes[i].l = l}
NewNote(l) == [l |-> l, seq |-> 0, id |-> "", refs |-> << >>, def |-> FALSE,
               link |-> "", a |-> << >>, o |-> << >>]

R(o, st) == [o |-> o, st |-> st]

RECURSIVE RIn(_, _, _), RIns(_, _, _, _)
\* the nodes b[i..], separated by spaces
RIns(cfg, st, b, i) ==
  IF i > Len(b) THEN R(<< >>, st)
  ELSE LET x == RIn(cfg, st, b[i])
           y == RIns(cfg, x.st, b, i + 1)
           sep == IF i < Len(b) /\ SpaceBetween(b[i], b[i + 1]) THEN T(" ") ELSE << >>
       IN R(x.o \o sep \o y.o, y.st)

\* the nodes b[i..], juxtaposed
RECURSIVE RJoin(_, _, _, _)
RJoin(cfg, st, b, i) ==
  IF i > Len(b) THEN R(<< >>, st)
  ELSE LET x == RIn(cfg, st, b[i])
           y == RJoin(cfg, x.st, b, i + 1)
       IN R(x.o \o y.o, y.st)

RFootRef(cfg, st, n) ==
  LET new == ~Has(st.fns, n.n)
      id == IF new THEN NewId(cfg, st) ELSE st.fns[n.n]
      st2 == IF new THEN [Bump(st) EXCEPT !.fns = (n.n :> id) @@ @] ELSE st
      inner == IF n.x THEN T(n.n) ELSE El("a", A("href", "#fn" \o id), T(n.n))
  IN R(El("sup", A("class", "footnote") @@ (IF new THEN A("id", "fnrev" \o id) ELSE NoA), inner), st2)

RNoteRef(cfg, st, n) ==
  LET known == NoteIx(st, n.l) # {}
      st1 == IF known THEN st ELSE [st EXCEPT !.notes = Append(@, NewNote(n.l))]
      i == CHOOSE j \in NoteIx(st1, n.l) : TRUE
      note == st1.notes[i]
      num == IF note.seq = 0 THEN st1.nseq + 1 ELSE note.seq
      st2 == [st1 EXCEPT !.nseq = IF note.seq = 0 THEN @ + 1 ELSE @]
      refid == NewId(cfg, st2)
      st3 == Bump(st2)
      first == note.refs = << >>
      id == IF note.id = "" THEN NewId(cfg, st3) ELSE note.id
      st4 == IF note.id = "" THEN Bump(st3) ELSE st3
      st5 == [st4 EXCEPT !.notes[i] = [@ EXCEPT !.seq = num, !.id = id, !.refs = Append(@, refid)]]
      anchor == El("span", A("id", "noteref" \o refid), T(ToString(num)))
      \* a repeated reference repeats the number; it needn't be a link to the note
      inner == IF n.x THEN anchor
               ELSE El("a", A("href", IF first THEN "#note" \o id ELSE "#note"), anchor)
  IN R(El("sup", AttsHtml(cfg, n.a), inner), st5)

\* Without block tags only phrases and typography are processed: links,
\* images, notes, code stay as they are written.
AsWritten(cfg, st, n) ==
  CASE n.k = "ln" -> LET body == RIns(cfg, st, n.b, 1)
                     IN R(T((IF n.sq THEN "[" ELSE "") \o "\"" \o AttsSrc(n.a)) \o body.o
                          \o T((IF n.ti = "" THEN "" ELSE "(" \o n.ti \o ")") \o "\":" \o n.url.u \o (IF n.sq THEN "]" ELSE "")), body.st)
    [] n.k = "raw" /\ ~cfg.restricted -> R(n.o, st)
    [] OTHER -> R(T(Src(n)), st)

RIn(cfg, st, n) ==
  CASE n.k = "w" -> R(T(n.s), st)
    [] ~cfg.block_tags /\ n.k \notin {"w", "sp", "ac", "cp", "gl", "j"} -> AsWritten(cfg, st, n)
    [] n.k = "sp" ->
         LET body == RIns(cfg, st, n.b, 1)
             cite == IF n.c = "" THEN NoA ELSE A("cite", n.c)
         IN R(El(SpanTag(n.m), AttsHtml(cfg, n.a) @@ cite, body.o), body.st)
    [] n.k = "code" ->
         IF cfg.lite \/ (cfg.restricted /\ n.d # "@") THEN R(T(Src(n)), st)
         ELSE R(El("code", NoA, T(n.s)), st)
    [] n.k = "pret" ->
         IF cfg.lite \/ cfg.restricted THEN R(T(Src(n)), st) ELSE R(El("pre", NoA, T(n.s)), st)
    [] n.k = "nt" ->
         IF cfg.lite \/ (cfg.restricted /\ n.d # "==") THEN R(T(Src(n)), st)
         ELSE IF cfg.restricted THEN R(T(n.s), st) ELSE R(n.o, st)
    [] n.k = "ln" ->
         IF ~UrlOk(cfg, n.url) THEN R(T(Src(n)), st)
         ELSE LET body == RIns(cfg, st, n.b, 1)
                  atts == A("href", n.url.h) @@ (IF n.ti = "" THEN NoA ELSE A("title", n.ti))
                          @@ RelAtt(cfg) @@ AttsHtml(cfg, n.a)
              IN R(El("a", atts, body.o), body.st)
    [] n.k = "lself" ->
         R(El("a", A("href", n.url.h) @@ RelAtt(cfg),
              T(IF StartsWith(n.url.h, "alias:") /\ Has(st.al, n.url.u) THEN st.al[n.url.u].shown ELSE n.shown)), st)
    [] n.k = "im" ->
         IF ~cfg.images \/ ~UrlOk(cfg, n.url) \/ ~(n.hr.s = "none" \/ UrlOk(cfg, n.hr))
         THEN R(T(Src(n)), st) ELSE R(ImgHtml(cfg, n), st)
    [] n.k = "ald" ->
         IF UrlOk(cfg, n.url) THEN R(<< >>, [st EXCEPT !.al = (n.n :> [h |-> n.url.h, shown |-> n.shown]) @@ @])
         ELSE R(T(Src(n)), st)
    [] n.k = "fr" -> RFootRef(cfg, st, n)
    [] n.k = "nr" -> RNoteRef(cfg, st, n)
    [] n.k = "ac" -> R(El(IF cfg.html = "html5" THEN "abbr" ELSE "acronym", 
                          \* an explanation is a text of the document
                          A("title", IF cfg.restricted THEN n.ti ELSE Decoded(n.ti)),
                          IF \E i \in 1..Len(n.w) : Ch(n.w, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
                          THEN T(n.w) ELSE El("span", A("class", "caps"), T(n.w))), st)
    [] n.k = "cp" -> R(El("span", A("class", "caps"), T(n.w)), st)
    [] n.k = "gl" -> R(T(n.o), st)
    [] n.k = "nl" -> R(Br, st)
    [] n.k = "raw" -> IF cfg.restricted THEN R(T(n.s), st) ELSE R(n.o, st)
    [] n.k = "j" -> RJoin(cfg, st, n.b, 1)

Inl(cfg, st, b) == RIns(cfg, st, b, 1)

\* --------------------------------------------------- unambiguous documents
\* Textile marks have no distinct opening and closing forms, so that some
\* trees share one source ("**a**" is both <b>a</b> and two nested <strong>).
\* The specification speaks about the trees whose source can be read in one
\* way only: no span within a span of the same mark character, no character
\* after a mark which would extend the mark.
FirstCh(s) == IF s = "" THEN "" ELSE Ch(s, 1)
LastCh(s) == IF s = "" THEN "" ELSE Ch(s, Len(s))
\* the marks within a sequence of nodes, in order
RECURSIVE MarksIn(_), MarksInAll(_)
MarksInAll(b) == Flat([i \in 1..Len(b) |-> MarksIn(b[i])])
MarksIn(n) ==
  CASE n.k = "sp" -> <<Ch(n.m, 1)>> \o MarksInAll(n.b)
    [] n.k \in {"ln", "j"} -> MarksInAll(n.b)
    [] OTHER -> << >>
\* the marks which touch the mark of the enclosing span
RECURSIVE TightIn(_)
TightIn(n) ==
  CASE n.k = "sp" ->
         {Ch(n.b[i].m, 1) : i \in {j \in {1, Len(n.b)} : n.b[j].k = "sp"}}
         \cup UNION {TightIn(n.b[i]) : i \in 1..Len(n.b)}
    [] n.k \in {"ln", "j"} -> UNION {TightIn(n.b[i]) : i \in 1..Len(n.b)}
    [] OTHER -> {}
OneWord(b) == Len(b) = 1 /\ b[1].k = "w"
\* could be read as the beginning of an attribute list or of a citation
LikeAtts(s) == FirstCh(s) \in {"(", ")", "[", "{", "<", ">", "=", ":"}
\* an image must be followed by a space, a code phrase must follow a space or a bracket
Open1(n) == IF n.k = "j" THEN n.b[1] ELSE n
Last1(n) == IF n.k = "j" THEN n.b[Len(n.b)] ELSE n
HasLink(n) == n.k \in {"ln", "lself"} \/ (n.k = "im" /\ n.hr.s # "none")
RECURSIVE LinkIn(_)
LinkIn(n) == HasLink(n) \/ (n.k \in {"sp", "j"} /\ \E i \in 1..Len(n.b) : LinkIn(n.b[i]))
\* punctuation at the end of a phrase belongs to the phrase
WordsAtEnd(n) == n.k = "j" => \A i \in 1..Len(n.b) : n.b[i].k = "w" \/ (n.b[i].k = "sp" /\ n.b[i].sq)
RECURSIVE Proper(_)
ProperBody(b) ==
  /\ \A i \in 1..Len(b) : Proper(b[i])
  /\ ~LikeAtts(Srcs(b))
  /\ Open1(b[1]).k # "code"
Proper(n) ==
  CASE n.k = "sp" -> /\ Ch(n.m, 1) \notin Range(MarksInAll(n.b))
                     \* a longer row of the mark's character is something else
                     /\ FirstCh(Srcs(n.b)) # Ch(n.m, 1) /\ LastCh(Srcs(n.b)) # Ch(n.m, 1)
                     /\ ProperBody(n.b)
                     /\ LET last == n.b[Len(n.b)]
                        IN \* "??" at the end of a phrase is punctuation
                           /\ (last.k = "sp" /\ last.m = "??") => (Len(n.b) = 1 /\ OneWord(last.b) /\ last.a = << >>)
                           /\ WordsAtEnd(last)
                           \* the mark could be a part of the URL
                           /\ (HasLink(last) /\ ~(last.k = "ln" /\ last.sq)) => (Len(n.b) = 1 /\ Ch(n.m, 1) = "*")
                           /\ last.k # "im"
    [] n.k = "ln" -> /\ ProperBody(n.b)
                     /\ ~\E i \in 1..Len(n.b) : LinkIn(n.b[i])
                     /\ WordsAtEnd(n.b[Len(n.b)])
                     /\ n.ti = "" => LastCh(Srcs(n.b)) # ")"
    [] n.k = "j" -> /\ \A i \in 1..Len(n.b) : Proper(n.b[i])
                    /\ \A i \in 1..(Len(n.b) - 1) :
                         /\ n.b[i].k = "sp" => LastCh(n.b[i].m) # FirstCh(Src(n.b[i + 1]))
                         /\ (n.b[i].k = "im" /\ ~n.b[i].sq) => n.b[i + 1].k = "w" /\ (n.b[i + 1].s = ")" \/ (n.b[i].hr.s = "none" /\ n.b[i + 1].s \in {",", "."}))
                         \* the address of an image ends at a space
                         /\ (n.b[i].k = "im" /\ n.b[i].sq) => n.b[i].hr.s = "none"
    [] OTHER -> TRUE
Count(ss, x) == Cardinality({i \in 1..Len(ss) : ss[i] = x})
ProperAll(b) ==
  /\ \A i \in 1..Len(b) : Proper(b[i])
  \* a mark next to another mark is found by elimination, so it may occur only once
  /\ \A m \in UNION {TightIn(b[i]) : i \in 1..Len(b)} : Count(MarksInAll(b), m) = 1

\* ------------------------------------------------------- what a reader reads
\* The words of a construct: its text without any markup.
RECURSIVE WordsOf(_)
WordsOf(n) ==
  CASE n.k = "w" -> <<n.s>>
    [] n.k \in {"sp", "ln"} -> Flat([i \in 1..Len(n.b) |-> WordsOf(n.b[i])])
    [] n.k = "j" -> Flat([i \in 1..Len(n.b) |-> WordsOf(n.b[i])])
    [] n.k \in {"code", "pret"} -> <<n.s>>
    [] n.k = "ac" -> <<n.w>>
    [] n.k = "cp" -> <<n.w>>
    [] OTHER -> << >>
=============================================================================
