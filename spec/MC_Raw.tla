------------------------------- MODULE MC_Raw -------------------------------
(***************************************************************************)
(* HTML of the author, in and around Textile: tags, comments, character    *)
(* references, blocks of HTML, and what set_raw_blocks makes of them.      *)
(***************************************************************************)
EXTENDS Lib
CONSTANTS Model, Depth
W1 == <<W("word")>>
Tag(t, a, s) == Raw("<" \o t \o HAttsSrc(a) \o ">" \o s \o "</" \o t \o ">", El(t, HAtts(a, 1), T(s)))
Ot(t, a) == Raw("<" \o t \o HAttsSrc(a) \o ">", O(t, HAtts(a, 1)))
Ct(t) == Raw("</" \o t \o ">", C(t))
RawC(s) == Raw("<!--" \o s \o "-->", Cmt(s))
\* typography does not reach into the tags
Titles == {"plain", "it's", "a -- b", "a - b", "(c) (r)", "2 x 3", "wait...", "größe", "ABC(d)", "NASA", "[1/2]", "'q'"}
Inlines ==
  {Tag("b", << >>, "x"), Tag("i", << >>, "x y"), Tag("u", << >>, "x"), Tag("kbd", << >>, "Ctrl"), Tag("span", <<HA("class", "c")>>, "x"), Tag("span", <<HA("class", "c d"), HA("id", "i")>>, "x"),
   Tag("a", <<HA("href", "http://example.com/")>>, "x"), Tag("a", <<HA("href", "/a?b=1"), HA("title", "t")>>, "x"), Tag("em", <<HA("onclick", "f(1)")>>, "x"),
   Raw("<br>", Br), Raw("<img src=\"/i.png\" alt=\"a\" />", V("img", A("src", "/i.png") @@ A("alt", "a"))), Raw("<img src=\"i.png\">", V("img", A("src", "i.png"))),
   Tag("my-tag", << >>, "x"), Tag("font", <<HA("color", "red")>>, "x"), Tag("sub", << >>, "2"), Raw("<b>x <i>y</i> z</b>", El("b", NoA, T("x ") \o El("i", NoA, T("y")) \o T(" z")))}
Comments == {RawC(" c "), RawC("c"), RawC(" a -- b "), RawC(" *a* _b_ "), RawC(" \"q\":http://x.y "), RawC(" !i.png! [1] "), RawC(" <b>x</b> "), RawC(" a > b "), RawC(" one\ntwo "), RawC(" it's (c) ABC(d) ")}
References == {Raw("&amp;", T("&")), Raw("&lt;b&gt;", T("<b>")), Raw("&copy;", T("©")), Raw("&#169;", T("©")), Raw("&#xe9;", T("é")), Raw("&quot;", T("\"")), Raw("&nbsp;", T(" ")), Raw("a&amp;b", T("a&b")), Raw("&frac12;", T("½")), Raw("&#x2F;", T("/")), Raw("&#X2f;", T("/")), Raw("&AMP;", T("&")),
  Raw("&sup2;", T("²")), Raw("&Eacute;", T("É")), Raw("&#8364;", T("€")), Raw("&#x20AC;", T("€")), Raw("&hellip;", T("…")), Raw("&#128512;", T("😀")), Raw("&euro;5", T("€5")), Raw("a&#45;b", T("a-b")), Raw("&mdash;&ndash;", T("—–")),
  Raw("&#0039;", T("'")), Raw("&there4;", T("∴"))}
\* a plain place
Around(n) == {<<n>>, <<W("a"), n, W("b")>>, <<n, W("b")>>, <<W("a"), n>>, <<W("a"), After(n, ","), W("b")>>, <<W("a"), NL, n, NL, W("b")>>, <<n, n>>, <<W("a"), n, W("b"), n>>}
\* markup between tags, and tags within markup
Mixed(t) == {
  <<W("a"), J(<<Ot(t, << >>), W("x"), Ct(t)>>), W("b")>>,
  <<W("a"), Ot(t, << >>), Sp("*", << >>, W1), Ct(t), W("b")>>, <<W("a"), J(<<Ot(t, << >>), Sp("*", << >>, W1), Ct(t)>>), W("b")>>,
  <<W("a"), J(<<Ot(t, <<HA("class", "c")>>), Sp("_", <<cls>>, W1), Ct(t)>>), W("b")>>,
  <<W("a"), J(<<Ot(t, << >>), W("x")>>), Sp("+", << >>, W1), J(<<W("y"), Ct(t)>>), W("b")>>,
  <<W("a"), Sp("*", << >>, <<W("y"), J(<<Ot(t, << >>), W("x"), Ct(t)>>), W("z")>>), W("b")>>,
  <<W("a"), Sp("_", << >>, <<J(<<Ot(t, << >>), W("x"), Ct(t)>>)>>), W("b")>>,
  <<W("a"), J(<<Ot(t, << >>), W("x")>>), Ln(<< >>, W1, "", ex), J(<<W("y"), Ct(t)>>), W("b")>>,
  <<W("a"), Ln(<< >>, <<W("y"), J(<<Ot(t, << >>), W("x"), Ct(t)>>), W("z")>>, "", ex), W("b")>>,
  <<W("a"), J(<<Ot(t, << >>), W("x")>>), Code("y"), J(<<W("z"), Ct(t)>>)>>,
  <<W("a"), J(<<Ot(t, << >>), W("x")>>), Gl("it's", "it’s"), Gl("--", "—"), J(<<W("z"), Ct(t)>>)>>,
  <<W("a"), J(<<Ot(t, << >>), W("x")>>), Im("", << >>, pic, "", NoUrl), J(<<W("z"), Ct(t)>>)>>,
  <<W("a"), J(<<Ot(t, << >>), W("x"), Fr("1"), Ct(t)>>), W("b")>>}
Texts == {W1, <<W("a"), Sp("*", << >>, W1), W("b")>>, <<W("a"), Ln(<< >>, W1, "", ex), W("b")>>, <<W("a"), NL, W("b")>>, <<W("a"), Code("b"), W("c")>>, <<W("a"), Im("", << >>, pic, "", NoUrl), W("b")>>,
          <<W("a"), Gl("it's", "it’s"), W("b")>>, <<W("a"), J(<<W("b"), Fr("1")>>), W("c")>>, <<W("a"), Ac("ABC", "t"), W("b")>>, <<W("a"), Raw("&copy;", T("©")), Tag("b", << >>, "x"), W("c")>>}
\* markup right between tags
Tight(t) == {<<W("a"), J(<<Ot(t, a), n, Raw(i, T(i)), Ct(t), Raw(o, T(o))>>), W("b")>> :
               a \in {<< >>, <<HA("class", "c")>>}, n \in {Ln(<< >>, W1, "", ex), Ln(<<cls>>, W1, "title", exs), Ln(<< >>, <<Sp("*", << >>, W1)>>, "", rel2), LnSelf(ex, "example.com"),
                 Code("x *y*"), Ac("ABC", "t"), Cp("NASA"), Gl("\"q\"", "“q”"), Gl("it's", "it’s"), Sp("_", <<cls>>, W1)}, i \in {"", ".", "!"}, o \in {"", ",", ".", "?", ")", ";"}}
     \cup {<<W("a"), J(<<Ot(t, << >>), W("x")>>), J(<<n, Ct(t), Raw(o, T(o))>>), W("b")>> : n \in {Ln(<< >>, W1, "", ex), Ln(<< >>, W1, "", exs), Ln(<< >>, W1, "t", rel1), LnSelf(exs, "example.com/a/b.html")}, o \in {"", ",", ".", "?", ");"}}
HAll == {<< >>, <<HA("class", "c")>>, <<HA("id", "i"), HA("title", "it's -- (c)")>>}
Others == {"custom", "my-tag", "style", "center", "foo"}
InP(ts) == {P(t) : t \in {x \in ts : ProperAll(x)}}
Elements == {"div", "section", "ul", "form", "article", "h2", "p", "blockquote", "table", "custom", "foo", "span", "b", "a", "kbd"}
Blks(m) ==
  CASE m = "inline" -> InP(UNION {IF n.o = Br THEN {<<W("a"), n, W("b")>>, <<W("a"), n>>, <<W("a"), n, W("b"), n>>} ELSE IF n.o[1][1] = "v" \/ n.o[1][2] \notin Phrasing THEN Around(n) \ {<<n>>, <<n, n>>} ELSE Around(n) : n \in Inlines \cup {Tag("span", <<HA("title", t)>>, "x") : t \in Titles}})
    [] m = "comments" -> InP(UNION {Around(n) \ {<<n>>} : n \in Comments})
    [] m = "refs" -> InP(UNION {Around(n) : n \in References})
    [] m = "mixed" -> InP(UNION {Mixed(t) : t \in {"b", "u", "span", "kbd", "foo"}})
    [] m = "tight" -> UNION {{P(x) : x \in Tight(t)} : t \in {"b", "u", "span", "h"}}
    [] m = "hosts" -> Hosted({<<W("a"), n, W("b")>> : n \in Inlines \cup Comments \cup References}, HostKinds)
    [] m = "blocks" -> {Hb(t, a, b) : t \in Elements, a \in HAll, b \in Texts}
    [] m = "tags" -> {Hb(t, << >>, W1) : t \in BlockLevel \cup Phrasing \cup Others} \cup {Hb(t, <<HA("class", "c")>>, <<W("a"), NL, W("b")>>) : t \in BlockLevel \cup Phrasing \cup Others}
    [] m = "around" -> {Ho("div", << >>), Ho("section", <<HA("class", "c")>>), Hc("div"), Hc("section"), P(W1), Hb("div", << >>, W1), Hb("foo", << >>, W1), Bq(FALSE, << >>, NoUrl, W1),
                        Lst(<<Li("*", "", << >>, W1)>>), Ho("foo", << >>), Hc("foo")}
    [] m = "dividers" -> {HtmlB("<hr>", V("hr", NoA)), HtmlB("<hr />", V("hr", NoA)), HtmlB("<hr class=\"c\" />", V("hr", A("class", "c"))), HtmlB("<img src=\"/i.png\" />", V("img", A("src", "/i.png"))),
                          HtmlB("<img src=\"/i.png\" alt=\"it's -- (c) *b*\" />", V("img", A("src", "/i.png") @@ A("alt", "it's -- (c) *b*"))), HtmlB("<!-- c -->", Cmt(" c ")), HtmlB("<!-- *a* -- -->", Cmt(" *a* -- ")), P(W1)}
    [] m = "mixedblocks" -> InP({<<W("a"), Tag("div", << >>, "x"), W("b")>>, <<Tag("div", << >>, "x"), W("b")>>, <<W("a"), Tag("section", <<HA("id", "i")>>, "x")>>, <<Tag("p", << >>, "x"), W("b")>>, <<Tag("h2", << >>, "x"), Sp("*", << >>, W1)>>})
\* the tags of HTML blocks must match
RECURSIVE Opened(_, _)
Opened(d, i) ==   \* the stack of open tags after d[1..i]
  IF i = 0 THEN << >>
  ELSE LET s == Opened(d, i - 1)
       IN IF d[i].k = "ho" THEN Append(s, d[i].t) ELSE IF d[i].k = "hc" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Matching(b) == IF b.k = "hc" THEN LET s == Opened(doc, Len(doc)) IN s # << >> /\ s[Len(s)] = b.t ELSE TRUE
Whole == Opened(doc, Len(doc)) = << >>
RawBlocks(c) == [c EXCEPT !.raw_blocks = TRUE]
Unrestricted == {Cfg0, Xhtml, RawBlocks(Cfg0)}
\* in restricted mode quotes and dashes in a tag are typography, as the tag is text
Cfgs(m) == IF m \in {"blocks", "tags", "around", "dividers"} THEN {Cfg0, RawBlocks(Cfg0), Xhtml} ELSE IF m \in {"mixed", "inline"} THEN {Cfg0, Xhtml, [Cfg0 EXCEPT !.block_tags = FALSE]} ELSE {Cfg0, Xhtml}
Init == DocInit(Cfgs(Model))
Next == (IF Whole THEN Emit ELSE TRUE) /\ Len(doc) < Depth /\ \E b \in Blks(Model) : Matching(b) /\ Write(b)
InvMatched == Whole => WellNested(Html)
\* random documents
RandHtml(i) ==
  LET k == RE(1..8)
  IN CASE k <= 2 -> Hb(RE(Elements), RE(HAll), RE(Texts))
       [] k = 3 -> RE(Blks("dividers"))
       [] k = 4 -> RE({Ho("div", << >>), Ho("section", <<HA("class", "c")>>), Ho("foo", << >>)})
       [] k = 5 -> Hc(RE({"div", "section", "foo"}))
       [] k = 6 -> P(<<W("a"), RE(Inlines \cup References), W("b"), RE(Inlines \cup Comments), W("c")>>)
       [] k = 7 -> P(RE(Texts))
       [] OTHER -> RE({PX(FALSE, <<cls>>, W1), Lst(<<Li("*", "", << >>, W1), Li("*", "", << >>, <<W("a"), Tag("b", << >>, "x")>>)>>), Bq(FALSE, << >>, NoUrl, <<W("a"), RawC(" c ")>>), Bc(FALSE, << >>, "<b>x</b>"), NtB(FALSE, "<b>*x*</b>", El("b", NoA, T("*x*")))})
InitR == DocInit(Unrestricted)
NextR == \/ Len(doc) = Depth /\ Whole /\ Emit /\ FALSE
         \/ /\ Len(doc) < Depth
            /\ \E b \in {RandHtml(Len(doc))} : IF Matching(b) THEN WriteOrSkip(b) ELSE UNCHANGED vars
=============================================================================
