-------------------------------- MODULE Lib ---------------------------------
(***************************************************************************)
(* Pools of material for the models: URLs, attribute lists, inline         *)
(* constructs, contexts an inline construct may occur in, and blocks that  *)
(* can host it.                                                            *)
(***************************************************************************)
EXTENDS Doc

MCLabels == <<"a1", "b2", "c3", "d4", "e5", "f6", "g7", "h8", "i9", "j10", "k11", "l12", "note", "x-y">>

\* ------------------------------------------------------------------- settings
Restricted == [Cfg0 EXCEPT !.restricted = TRUE]
Xhtml == [Cfg0 EXCEPT !.html = "xhtml"]
Lite == [Cfg0 EXCEPT !.lite = TRUE]
LiteR == [Restricted EXCEPT !.lite = TRUE]
NoImages == [Cfg0 EXCEPT !.images = FALSE]
Rel == [Cfg0 EXCEPT !.rel = "nofollow"]
BothModes == {Cfg0, Restricted}

\* ----------------------------------------------------------------------- URLs
ex == U("http://example.com", "http://example.com/", "http")
exs == U("https://example.com/a/b.html", "https://example.com/a/b.html", "https")
exq == U("http://example.com/?a=1&b=2", "http://example.com/?a=1&b=2", "http")
exf == U("http://example.com/p#frag", "http://example.com/p#frag", "http")
exp == U("http://example.com/a_(b)", "http://example.com/a_(b)", "http")
rel1 == U("page.html", "page.html", "")
rel2 == U("/a/b", "/a/b", "")
rel3 == U("#top", "#top", "")
rel4 == U("../up/x?y=1", "../up/x?y=1", "")
mail == U("mailto:me@example.com", "mailto:me@example.com", "mailto")
ftp == U("ftp://example.com/f", "ftp://example.com/f", "ftp")
tel == U("tel:12345", "tel:12345", "tel")
\* schemes no link may have
js == U("javascript:alert", "javascript:alert", "javascript")
pic == U("pic.png", "pic.png", "")
picabs == U("http://example.com/i/pic.png", "http://example.com/i/pic.png", "http")

\* ------------------------------------------------------------ attribute lists
cls == <<"cls", "cl">>
cls2 == <<"cls", "one two">>
idp == <<"id", "ident">>
ci == <<"ci", "cl", "ident">>
sty == <<"sty", "color:red">>
sty2 == <<"sty", "color:red;margin:0 1px">>
lang == <<"lang", "en">>
lang2 == <<"lang", "pt-br">>
alL == <<"al", "<">>
alR == <<"al", ">">>
alC == <<"al", "=">>
alJ == <<"al", "<>">>
pl(n) == <<"pl", n>>
pr(n) == <<"pr", n>>
vaT == <<"va", "^">>
vaM == <<"va", "-">>
vaB == <<"va", "~">>

SpanAtts == {<< >>, <<cls>>, <<cls2>>, <<idp>>, <<ci>>, <<sty>>, <<sty2>>, <<lang>>, <<lang2>>,
             <<cls, sty>>, <<sty, cls>>, <<cls, lang>>, <<lang, cls>>, <<sty, lang>>, <<lang, sty>>,
             <<ci, sty, lang>>, <<lang, sty, ci>>}

\* -------------------------------------------------- contexts for an inline node
After(n, s) == J(<<n, W(s)>>)
Lead(s, n) == J(<<W(s), n>>)
Contexts(n) == {
  <<n>>, <<W("before"), n, W("after")>>, <<W("before"), n>>, <<n, W("after")>>,
  <<W("x"), After(n, ",")>>, <<After(n, ".")>>, <<After(n, ";"), W("x")>>, <<After(n, ":"), W("x")>>,
  <<After(n, "!")>>, <<After(n, "?")>>,
  <<Paren(n)>>, <<W("x"), Paren(n), W("y")>>,
  <<W("line"), NL, n, NL, W("line")>>, <<n, n>>, <<n, W("and"), n>>}

\* --------------------------------------------------- blocks that host inline text
HostKinds == {"p", "px", "h2", "bq", "li", "ol", "lii", "td", "th", "td2", "dd", "dt", "dls", "dlt", "dlw", "fn"}
Host(h, b) ==
  CASE h = "p" -> P(b)
    [] h = "px" -> PX(FALSE, <<cls>>, b)
    [] h = "h2" -> H(FALSE, "2", << >>, b)
    [] h = "bq" -> Bq(FALSE, << >>, NoUrl, b)
    [] h = "li" -> Lst(<<Li("*", "", << >>, b), Li("*", "", << >>, <<W("item")>>)>>)
    [] h = "ol" -> Lst(<<Li("#", "", << >>, <<W("item")>>), Li("#", "", << >>, b)>>)
    [] h = "lii" -> Lst(<<Li("*", "", << >>, <<W("item")>>), Li("**", "", << >>, b), Li("*", "", << >>, <<W("item")>>)>>)
    [] h = "td" -> Tb(FALSE, << >>, "", NoCap, << >>,
                      <<Row("", << >>, << >>, <<Cell(FALSE, << >>, b), Cell(FALSE, << >>, <<W("cell")>>)>>)>>)
    [] h = "td2" -> Tb(FALSE, << >>, "", NoCap, << >>,
                      <<Row("", << >>, << >>, <<Cell(FALSE, << >>, <<W("cell")>>)>>),
                        Row("", << >>, << >>, <<Cell(FALSE, << >>, <<W("cell")>>), Cell(FALSE, <<cls>>, b)>>)>>)
    [] h = "th" -> Tb(FALSE, << >>, "", NoCap, << >>,
                      <<Row("", << >>, << >>, <<Cell(TRUE, << >>, b)>>)>>)
    [] h = "dt" -> Lst(<<Li(";", "", << >>, b), Li(":", "", << >>, <<W("def")>>)>>)
    [] h = "dd" -> Lst(<<Li(";", "", << >>, <<W("term")>>), Li(":", "", << >>, b)>>)
    [] h = "dls" -> Dls(<<Di(<< >>, <<W("term")>>, b)>>)
    [] h = "dlt" -> Dls(<<DiX(<< >>, << <<W("term")>> >>, b, <<W("def")>>, FALSE), Di(<< >>, <<W("term")>>, <<W("def")>>)>>)
    [] h = "dlw" -> Dls(<<DiX(<< >>, << >>, <<W("term")>>, b, TRUE), Di(<< >>, <<W("term")>>, <<W("def")>>)>>)
    [] h = "fn" -> Fn("9", << >>, FALSE, b)

MultiLine(b) == \E i \in 1..Len(b) : b[i].k = "nl"
\* blocks which may not hold several lines: a table cell with a line break is
\* fine, but the first part of a definition isn't
RECURSIVE ImgLinkIn(_)
ImgLinkIn(n) == \/ n.k = "im" /\ n.hr.s # "none"
                \/ n.k \in {"sp", "j"} /\ \E i \in 1..Len(n.b) : ImgLinkIn(n.b[i])
DashLine(b) == \E i \in 1..Len(b) : b[i].k = "gl" /\ StartsWith(b[i].s, "--") /\ (i = 1 \/ b[i - 1].k = "nl")
HostFits(h, b) ==
  /\ ProperAll(b)
  /\ ~(MultiLine(b) /\ h = "dt")
  \* a line which starts with a dash would be the next term
  /\ ~(h \in {"dls", "dlt", "dlw"} /\ DashLine(b))
  /\ ~(h = "td" /\ FirstCh(Srcs(b)) = "_")
  \* the "|" after the URL of an image would be a part of the URL
  /\ ~(h \in {"td", "td2", "th"} /\ ImgLinkIn(b[Len(b)]))
Hosted(bs, hs) == {Host(x[1], x[2]) : x \in {y \in hs \X bs : HostFits(y[1], y[2])}}
InAll(ns, hs) == Hosted(UNION {Contexts(n) : n \in ns}, hs)

\* ------------------------------------------------------------- random material
\* Generators for random walks.  The parameter i only makes an operator
\* depend on the state, so that TLC evaluates it anew in every step.
AllMarks == {"*", "**", "_", "__", "??", "-", "+", "^", "~", "%"}
Words == {"alpha", "beta", "gamma", "delta", "größe", "k9", "naïve", "word", "слово", "日本", "a", "I", "42", "x-y", "one/two", "e.g", "CamelCase", "é", "n1n", "😀", "über", "pp", "bqx", "3,14", "co-op"}
Urls == {ex, exs, exq, exf, rel1, rel2, rel3, rel4, mail, ftp,
  U("http://example.com:8080/x", "http://example.com:8080/x", "http"), U("http://example.com/ä", "http://example.com/%C3%A4", "http"), U("http://example.com/a%20b", "http://example.com/a%20b", "http"),
  U("http://example.com/a,b", "http://example.com/a,b", "http"), U("http://example.com/a_b_c", "http://example.com/a_b_c", "http"), U("http://example.com/~me/", "http://example.com/~me/", "http"),
  U("http://example.com/a-b-c", "http://example.com/a-b-c", "http"), U("//example.com/x", "//example.com/x", ""), U("?q=1", "?q=1", ""), U("a/b/c.html#d", "a/b/c.html#d", "")}
Glyphs == {<<"--", "—">>, <<"so...", "so…">>, <<"(c)", "©">>, <<"(r)", "®">>, <<"(tm)", "™">>, <<"2 x 3", "2 × 3">>,
           <<"it's", "it’s">>, <<"\"quoted\"", "“quoted”">>, <<"'single'", "‘single’">>, <<"a & b", "a & b">>,
           <<"5 < 6", "5 < 6">>, <<"[1/2]", "½">>, <<"[o]", "°">>, <<"a -- b", "a — b">>, <<"a - b", "a – b">>, <<"a--b", "a—b">>, <<"10x20", "10×20">>, <<"(1/4)", "¼">>, <<"[3/4]", "¾">>,
           <<"rock'n'roll", "rock’n’roll">>, <<"in '88", "in ’88">>, <<"\"two words\"", "“two words”">>, <<"wait...", "wait…">>, <<"R&D", "R&D">>, <<"(tm)", "™">>, <<"Name(r)", "Name®">>, <<"20(o)C", "20°C">>,
           <<"a......b", "a……b">>, <<"'two words'", "‘two words’">>, <<"5' x 6'", "5’ × 6’">>}
CodeTexts == {"x", "a < b", "*not bold*", "\"q\"", "a & b", "&amp;", "_x_ y", "<b>", "fn(1)", "[1]", "http://x.y", "a -- b", "it's", "(c)", "ABC(x)", "!i.png!", "\"l\":u", "[#n]", "&#169;", "<!-- c -->", "==x==", "2 x 3", "NASA", "a  b", "größe 日本", "%x%", "x = y;", "|a|b|", "* x", "\\n", "<x y=\"z\">", "'q'"}
\* verbatim texts which mean nothing elsewhere, either
PlainNt == {"x", "plain text", "größe"}
RE(S) == RandomElement(S)
\* phrases within phrases
Row10 == <<"*", "_", "-", "+", "^", "~", "%", "??", "**", "__">>
MarkAt(i) == Row10[((i - 1) % 10) + 1]
Within(i, s, b) == <<W("a"), Sp(MarkAt(i), s, b), W("z")>>
RECURSIVE DeepIn(_, _, _)
DeepIn(i, d, n) == IF n = 0 THEN <<W("core")>> ELSE Within(i, IF n % 3 = 0 THEN <<cls>> ELSE << >>, DeepIn(i + d, d, n - 1))

RECURSIVE RandNode(_, _), RandSeqN(_, _, _)
RandSeqN(ks, d, n) == IF n = 0 THEN << >> ELSE <<RandNode(ks, d)>> \o RandSeqN(ks, d, n - 1)
RandSeq(ks, d) == RandSeqN(ks, d, RE(1..4))
\* the pieces of a line of text; a line break needs something before and after
RandLine(ks, d) == RandSeqN(ks, d, RE(1..4))
RandText(ks, d) == IF RE(1..4) = 1 THEN RandLine(ks, d) \o <<NL>> \o RandLine(ks, d) ELSE RandLine(ks, d)
RandNode(ks, d) ==
  LET k == RE(ks)
  IN CASE k = "w" -> W(RE(Words))
       [] k = "sp" -> IF d = 0 THEN W(RE(Words)) ELSE Sp(RE(AllMarks), RE(SpanAtts), RandSeqN(ks, d - 1, RE(1..3)))
       [] k = "spsq" -> IF d = 0 THEN W(RE(Words))
                        ELSE J(<<W("in"), SpSq(RE(AllMarks), RE(SpanAtts), RandSeqN({"w"}, d - 1, RE(1..3))), W("out")>>)
       [] k = "ln" -> IF d = 0 THEN W(RE(Words))
                      ELSE Ln(RE(SpanAtts), RandSeqN(ks \ {"ln", "lself", "lnsq", "la", "fr", "nr", "frx", "nrx", "gl", "qt", "imsq", "lnnl"}, d - 1, RE(1..2)), RE({"", "title"}), RE(Urls))
       [] k = "im" -> Im(RE({"", "<", ">", "="}), RE(SpanAtts), RE({pic, picabs}), RE({"", "alt"}), RE({NoUrl, NoUrl, ex, rel1}))
       [] k = "imsq" -> J(<<W("in"), ImSq(RE({"", ">"}), RE(SpanAtts), RE({pic, picabs}), RE({"", "alt"}), NoUrl), W("out")>>)
       [] k = "qt" -> LET q == RE({<<"\"", "“", "”">>, <<"'", "‘", "’">>})
                          x == RandSeqN({"w", "w", "cp", "sp", "frx", "nrx", "ac"}, IF d = 0 THEN 0 ELSE 1, RE(1..3))
                          \* the quotes cling to the first and the last piece
                          y == [i \in 1..Len(x) |-> LET f == IF i = 1 THEN <<Gl(q[1], q[2]), x[i]>> ELSE <<x[i]>>
                                                     IN J(IF i = Len(x) THEN Append(f, Gl(q[1], q[3])) ELSE f)]
                      IN J(Flat([i \in 1..Len(y) |-> IF i = 1 THEN <<y[i]>> ELSE <<W(" "), y[i]>>]))
       [] k = "lnnl" -> IF d = 0 THEN W(RE(Words)) ELSE Ln(RE(SpanAtts), RandSeqN({"w", "sp", "cp"}, d - 1, 1) \o <<NL>> \o RandSeqN({"w", "sp", "code"}, d - 1, 2), RE({"", "title"}), RE(Urls))
       [] k = "code" -> Code(RE(CodeTexts))
       [] k = "fr" -> J(<<W("foot"), Fr(RE({"1", "2", "3"}))>>)
       [] k = "nr" -> J(<<W("note"), Nr(RE({"a1", "b2", "c3"}))>>)
       [] k = "ac" -> Ac("ABC", RE({"title", "two words"}))
       [] k = "cp" -> Cp(RE({"HTML", "NASA"}))
       [] k = "gl" -> LET g == RE(Glyphs) IN Gl(g[1], g[2])
       [] k = "lnsq" -> IF d = 0 THEN W(RE(Words))
                        ELSE J(<<W("in"), LnSq(RE(SpanAtts), RandSeqN({"w", "w", "sp", "cp"}, d - 1, RE(1..2)), RE({"", "title"}), RE(Urls \cup {exp})), W("out")>>)
       [] k = "lself" -> RE({LnSelf(ex, "example.com"), LnSelf(exs, "example.com/a/b.html"), LnSelf(mail, "me@example.com"), LnSelf(rel2, "/a/b"), LnSelf(rel1, "page.html"), LnSelf(exq, "example.com/?a=1&b=2")})
       [] k = "la" -> Ln(RE(SpanAtts), <<W(RE(Words))>>, RE({"", "title"}), Alias(RE({"al1", "al2"})))
       [] k = "spc" -> IF d = 0 THEN W(RE(Words))
                       ELSE SpC(RE(AllMarks), RE({<< >>, <<cls>>, <<lang>>}), RE({"http://example.com/c", "/a/b", "page.html#x"}), RandSeqN({"w", "w", "cp", "sp"}, d - 1, RE(1..2)))
       [] k = "frx" -> J(<<W("foot"), FrX(RE({"1", "2", "3"}))>>)
       [] k = "nrx" -> J(<<W("note"), [NrX(RE({"a1", "b2", "c3"})) EXCEPT !.x = RE(BOOLEAN), !.a = RE({<< >>, <<cls>>, <<lang>>, <<sty>>})]>>)
       [] k = "nt" -> LET t == RE(PlainNt \cup {"a @x@ b", "a *b* c", "see !i.png! x", "x[1] y", "a -- b", "(c)", "x[#n]", "it's _x_"}) IN Nt("==", t, T(t))
       [] k = "raw" -> RE({Raw("<b>raw</b>", El("b", NoA, T("raw"))), Raw("&eacute;", T("é")), Raw("&#169;", T("©")), Raw("<kbd>k</kbd>", El("kbd", NoA, T("k")))})
       [] k = "deep" -> IF d < 2 THEN W(RE(Words)) ELSE DeepIn(RE(1..10), RE({1, 3, 7, 9}), RE(5..9))[2]
       [] k = "pun" -> J(<<RandNode(ks \ {"pun", "par"}, d), W(RE({",", ".", ";", "!", "?"}))>>)
       [] k = "par" -> Paren(RandNode(ks \ {"pun", "par"}, d))

WriteHosted(hs, text) ==
  \E t \in {text} : \E h \in {RE(hs)} :
    IF HostFits(h, t) THEN WriteOrSkip(Host(h, t)) ELSE UNCHANGED vars
=============================================================================
