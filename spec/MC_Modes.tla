------------------------------ MODULE MC_Modes ------------------------------
(* Every construct under every combination of the settings *)
EXTENDS Lib
CONSTANTS Model, Depth,
          Only  \* the setting in question ("any": all of them)
W1 == <<W("word")>>
Item(s) == <<W(s)>>
\* one of each: inline constructs
InlineZoo == {
  <<W("plain"), W("text")>>, <<W("two"), NL, W("lines")>>,
  <<W("a"), Sp("*", << >>, W1), W("b")>>, <<W("a"), Sp("_", <<cls>>, W1), W("b")>>, <<W("a"), Sp("%", <<ci, sty, lang>>, W1), W("b")>>,
  <<W("a"), SpC("-", << >>, "http://example.com/c", W1), W("b")>>, <<W("a"), SpC("??", << >>, "http://example.com/c", W1), W("b")>>,
  <<W("a"), Sp("*", << >>, <<Sp("_", << >>, W1), W("x")>>), W("b")>>, <<J(<<W("in"), SpSq("^", << >>, W1), W("out")>>)>>,
  <<W("a"), Ln(<< >>, W1, "", ex), W("b")>>, <<W("a"), Ln(<<ci, sty, lang>>, W1, "title", exq), W("b")>>, <<W("a"), Ln(<< >>, W1, "", rel1), W("b")>>,
  <<W("a"), LnSelf(ex, "example.com"), W("b")>>, <<W("a"), Ln(<< >>, W1, "", mail), W("b")>>, <<W("a"), Ln(<< >>, W1, "", tel), W("b")>>,
  <<W("a"), Ln(<< >>, <<Sp("*", << >>, W1), W("x")>>, "", rel2), W("b")>>, <<W("a"), Ln(<< >>, W1, "", js), W("b")>>,
  <<W("a"), Im("", << >>, pic, "", NoUrl), W("b")>>, <<W("a"), Im(">", <<cls>>, pic, "title", ex), W("b")>>,
  <<W("a"), Im("=", << >>, picabs, "", rel1), W("b")>>, <<W("a"), Im("", <<idp, sty>>, pic, "", NoUrl), W("b")>>,
  <<W("a"), Code("x < y"), W("b")>>, <<W("a"), Nt("==", "(x)", T("(x)")), W("b")>>,
  <<J(<<W("a"), Fr("1")>>), J(<<W("b"), FrX("1")>>)>>, <<J(<<W("a"), Nr("a1")>>)>>,
  <<W("a"), Ac("ABC", "title"), W("b")>>, <<W("a"), Cp("NASA"), W("b")>>, <<W("a"), Gl("--", "—"), W("b"), Gl("(c)", "©")>>,
  <<W("größe"), W("日本")>>, <<W("a"), Gl("\"quoted\"", "“quoted”"), W("b")>>}
\* ... and blocks
BlockZoo == {
  PX(FALSE, << >>, W1), PX(FALSE, <<cls>>, W1), PX(FALSE, <<ci, sty, lang>>, W1), PX(FALSE, <<alC>>, W1), PX(TRUE, <<idp>>, W1), PX(FALSE, <<pl(2)>>, W1),
  H(FALSE, "1", << >>, W1), H(FALSE, "3", <<cls>>, W1), Bq(FALSE, << >>, NoUrl, W1), Bq(FALSE, <<cls>>, exs, W1), Bq(TRUE, << >>, NoUrl, W1), Bq(FALSE, << >>, js, W1),
  Bc(FALSE, << >>, "a < b"), Bc(FALSE, <<lang>>, "code"), Bc(TRUE, <<cls>>, "code"), Pre(FALSE, << >>, "a < b"), Pre(FALSE, <<sty>>, "text"),
  NtB(FALSE, "(x)", T("(x)")), Cm(FALSE, "comment"), Fn("1", << >>, FALSE, W1), Fn("2", <<cls>>, TRUE, W1),
  Lst(<<Li("*", "", << >>, Item("one")), Li("*", "", << >>, Item("two"))>>),
  Lst(<<Li("#", "", <<cls>>, Item("one")), Li("##", "", << >>, Item("two")), Li("#", "", <<sty>>, Item("three"))>>),
  Lst(<<Li("#", "5", << >>, Item("five"))>>), Lst(<<Li(";", "", << >>, Item("term")), Li(":", "", << >>, Item("def"))>>),
  Dls(<<Di(<< >>, Item("term"), Item("def"))>>),
  Tb(FALSE, << >>, "", NoCap, << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, Item("c1")), Cell(FALSE, << >>, Item("c2"))>>)>>),
  Tb(FALSE, << >>, "", NoCap, << >>, <<Row("^", << >>, << >>, <<Cell(TRUE, <<cls>>, Item("h1"))>>),
                                       Row("-", << >>, << >>, <<Cell(FALSE, <<alC>>, Item("c1"))>>), Row("", << >>, << >>, <<Cell(FALSE, <<<<"cs", "2">>>>, Item("c2"))>>)>>),
  Tb(TRUE, <<cls>>, "summary", Cap(<< >>, "cap"), <<Col("2", "50", << >>), Col("", "", <<cls>>)>>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, Item("c1"))>>)>>)}
\* tables with a heading do not read well as plain text
PlainOk(b) == IF b.k = "tb" THEN ~b.y /\ ~b.cap.y /\ b.cols = << >> ELSE TRUE
\* HTML of the author
HtmlZoo == {
  P(<<W("a"), Raw("<b class=\"c\" onclick=\"e()\">x</b>", El("b", A("class", "c") @@ A("onclick", "e()"), T("x"))), W("b")>>),
  P(<<W("a"), Raw("<i>", O("i", NoA)), Sp("*", << >>, W1), Raw("</i>", C("i")), W("b")>>),
  P(<<W("a"), Raw("<a href=\"http://example.com/\">x</a>", El("a", A("href", "http://example.com/"), T("x"))), W("b")>>),
  P(<<W("a"), Raw("<img src=\"x.png\" onerror=\"e\" />", V("img", A("src", "x.png") @@ A("onerror", "e"))), W("b")>>),
  P(<<W("a"), Raw("<blink>", O("blink", NoA)), W("x"), Raw("</blink>", C("blink")), W("b")>>),
  P(<<W("a"), Raw("<span style=\"color:red\" title=\"t\">x</span>", El("span", A("style", "color:red") @@ A("title", "t"), T("x"))), W("b")>>),
  HtmlB("<div id=\"d\">text</div>", El("div", A("id", "d"), T("text"))),
  NtB(FALSE, "<script>e()</script>", El("script", NoA, T("e()"))),
  NtB(FALSE, "<a href=\"javascript:e\" rel=\"x\">x</a>", El("a", A("href", "javascript:e") @@ A("rel", "x"), T("x"))),
  NtB(FALSE, "<custom>x</custom>", El("custom", NoA, T("x"))),
  NtB(FALSE, "<p title=\"t\">*x*</p>", El("p", A("title", "t"), T("*x*")))}

AllCfgs == [restricted : BOOLEAN, lite : BOOLEAN, images : BOOLEAN, html : {"html5", "xhtml"}, rel : {"", "nofollow", "a b"},
            block_tags : BOOLEAN, align_class : {"unset", "on", "off"}, raw_blocks : {FALSE}, sanitize : BOOLEAN, uid : {"uid0"}]
\* what one inline construct depends on
Mains == {c \in AllCfgs : c.align_class = "unset" /\ c.rel \in {"", "nofollow"}}
Blocks(m) ==
  CASE m = "inline" -> {P(t) : t \in InlineZoo} \cup {PX(FALSE, << >>, t) : t \in InlineZoo}
    [] m \in {"lists"} -> Hosted(InlineZoo, {"li", "td", "dls", "bq", "h2", "fn"})
    [] m = "blocks" -> BlockZoo
    [] m = "html" -> HtmlZoo
    [] m = "images" -> {P(t) : t \in {x \in InlineZoo : \E i \in 1..Len(x) : x[i].k = "im"}}
    [] m = "adjust" -> {P(t) : t \in InlineZoo} \cup Hosted(InlineZoo, {"li", "td"}) \cup BlockZoo \cup HtmlZoo
    [] m = "pairs" -> BlockZoo \cup {P(<<Ln(<< >>, W1, "", ex), NL, Ac("ABC", "t")>>)}
Cfgs(m) ==
  CASE m \in {"inline", "lists"} -> Mains
    [] m = "blocks" -> Mains
    [] m = "html" -> {c \in Mains : ~c.lite /\ c.block_tags}
    [] m = "images" -> AllCfgs
    [] m = "adjust" -> {[k \in {"adjust"} |-> v] @@ [c EXCEPT !.sanitize = TRUE] :
                          v \in {"rel", "generic", "rm", "deny", "base"}, c \in {Cfg0, Restricted, Rel, [Xhtml EXCEPT !.rel = "a b"]}}
    [] m = "pairs" -> {Lite, [Cfg0 EXCEPT !.block_tags = FALSE], [Cfg0 EXCEPT !.sanitize = TRUE], [Xhtml EXCEPT !.restricted = TRUE]}
InQuestion(c) ==
  CASE Only = "any" -> TRUE
    [] Only = "lite" -> c.lite /\ c.block_tags
    [] Only = "noblocks" -> ~c.block_tags \/ ~c.images
    [] Only = "kind" -> ~c.lite /\ c.block_tags
    [] Only = "rel" -> c.rel # "" /\ c.block_tags
    [] Only = "sanitize" -> c.sanitize
Fits(c, b) == IF c.block_tags THEN TRUE ELSE PlainOk(b)
Init == DocInit({c \in Cfgs(Model) : InQuestion(c)})
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Fits(cfg, b) /\ Write(b)
=============================================================================
