------------------------------- MODULE MC_Try -------------------------------
EXTENDS Doc
CONSTANT Depth
MCLabels == <<"a1","b2","c3">>
ex == U("http://example.com", "http://example.com/", "http")
Alphabet == {
  P(<<W("alpha"), W("beta")>>),
  P(<<Sp("*", <<>>, <<W("bold")>>), W("x"), Sp("_", <<<<"cls","c">>>>, <<W("em"), Code("a<b")>>)>>),
  P(<<W("see"), Ln(<<>>, <<W("text")>>, "title", ex), J(<<W("foot"), Fr("1")>>)>>),
  P(<<W("img"), Im(">", <<>>, U("a.png","a.png",""), "alt", NoUrl)>>),
  PX(FALSE, <<<<"ci","cls","id">>, <<"sty","color:red">>, <<"lang","en">>>>, <<W("para")>>),
  PX(TRUE, <<<<"cls","c">>>>, <<W("para")>>),
  H(FALSE, "1", <<<<"al","=">>>>, <<W("head")>>),
  H(TRUE, "3", <<>>, <<W("head")>>),
  Bq(FALSE, <<>>, ex, <<W("quote")>>),
  Bq(TRUE, <<<<"cls","c">>>>, NoUrl, <<W("quote")>>),
  Bc(FALSE, <<<<"lang","ruby">>>>, "x = <b> & \"y\"\n  z"),
  Bc(TRUE, <<>>, "code"),
  Pre(TRUE, <<>>, "pre *x*"),
  NtB(FALSE, "<b>*x*</b>", El("b", NoA, T("*x*"))),
  Cm(FALSE, "gone"), Cm(TRUE, "gone"),
  Fn("1", <<>>, TRUE, <<W("note")>>),
  P(<<J(<<W("n"), Nr("a1")>>), J(<<W("n"), Nr("b2")>>)>>),
  Nd("a1", "", <<>>, <<W("def")>>), Nd("c3", "^", <<>>, <<W("def3")>>),
  Nlist(<<>>, "", "", TRUE),
  Lst(<<Li("*","",<<>>,<<W("one")>>), Li("*#","7",<<<<"cls","c">>>>,<<W("two")>>), Li("*#","",<<>>,<<W("three"),NL,W("line")>>), Li("*","",<<>>,<<W("four")>>)>>),
  Lst(<<Li("#","",<<>>,<<W("one")>>), Li("#","",<<>>,<<W("two")>>)>>),
  Lst(<<Li("#","_",<<>>,<<W("one")>>)>>),
  Lst(<<Li(";","",<<>>,<<W("term")>>), Li(":","",<<>>,<<W("def")>>)>>),
  Dls(<<Di(<<>>, <<W("term")>>, <<W("def")>>), Di(<<>>, <<W("term2")>>, <<W("def2")>>)>>),
  Tb(TRUE, <<<<"cls","c">>>>, "sum", Cap(<<>>, "capt"), <<Col("2","100",<<>>), Col("","50",<<>>)>>,
     <<Row("^", <<>>, <<>>, <<Cell(TRUE,<<>>,<<W("h")>>), Cell(FALSE,<<<<"cs","2">>>>,<<W("c")>>)>>), Row("-", <<>>, <<<<"cls","r">>>>, <<Cell(FALSE,<<>>,<<Sp("*",<<>>,<<W("b")>>)>>)>>)>>),
  Al("link", ex, "example.com/"), P(<<Ln(<<>>, <<W("ali")>>, "", Alias("link"))>>),
  P(<<LnSelf(ex, "example.com")>>),
  HtmlB("<div>raw</div>", El("div", NoA, T("raw"))),
  Sps(<<W("spaced")>>),
  P(<<Ac("ABC","title"), Cp("HTML"), Gl("--","—"), Gl("...","…")>>)
}
Init == DocInit({Cfg0})
Next == Emit /\ Len(doc) < Depth /\ \E b \in Alphabet : Write(b)
=============================================================================
