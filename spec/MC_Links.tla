------------------------------ MODULE MC_Links ------------------------------
(* Hyperlinks and link aliases *)
EXTENDS Lib
CONSTANTS Model, Depth

Txt == <<W("link"), W("text")>>
One == <<W("link")>>
Titles == {"", "title", "two words", "it&s", "a < b", "größe"}
\* URLs of every kind
AllUrls == {ex, exs, exq, exf, exp, rel1, rel2, rel3, rel4, mail, ftp, tel,
  U("http://example.com:8080/x", "http://example.com:8080/x", "http"),
  U("http://user@example.com/x", "http://user@example.com/x", "http"),
  U("http://example.com/ä", "http://example.com/%C3%A4", "http"),
  U("http://example.com/a%20b", "http://example.com/a%20b", "http"),
  U("http://example.com/a,b", "http://example.com/a,b", "http"),
  U("http://example.com/a;b=c", "http://example.com/a;b=c", "http"),
  U("http://example.com/a:b", "http://example.com/a:b", "http"),
  U("http://example.com/a_b_c", "http://example.com/a_b_c", "http"),
  U("http://example.com/~me/", "http://example.com/~me/", "http"),
  U("http://example.com/a-b--c", "http://example.com/a-b--c", "http"),
  U("//example.com/x", "//example.com/x", ""),
  U("?q=1", "?q=1", ""), U("a/b/c.html#d", "a/b/c.html#d", ""),
  js, U("vbscript:x", "vbscript:x", "vbscript"), U("foo:bar", "foo:bar", "foo"),
  U("sftp://example.com/", "sftp://example.com/", "sftp"), U("file:///a/b", "file:///a/b", "file"),
  U("callto:me", "callto:me", "callto"), U("data:text/plain,x", "data:text/plain,x", "data")}

Full == {<<W("see"), Ln(a, Txt, t, u)>> : a \in SpanAtts, t \in {"", "title"}, u \in {ex, rel1}}
TitleSet == {<<W("see"), Ln(<< >>, Txt, t, u)>> : t \in Titles, u \in {ex, rel2}}
UrlSet == {c \in UNION {{<<Ln(<< >>, One, "", u)>>, <<W("see"), Ln(<< >>, Txt, "", u), W("now")>>, <<W("x"), LnSq(<< >>, Txt, "", u), W("y")>>}
            : u \in AllUrls} : TRUE}
PlainUrls == {ex, exs, exq, exf, rel1, rel2, rel3, rel4, mail, ftp}
Ctx == UNION {Contexts(Ln(<< >>, One, "", u)) : u \in PlainUrls}
CtxT == UNION {Contexts(Ln(<<cls>>, Txt, "title", u)) : u \in {ex, rel1, exp}}
SqCtx == {<<J(<<W("in"), LnSq(a, Txt, t, u), W("out")>>)>> : a \in {<< >>, <<cls>>}, t \in {"", "title"}, u \in PlainUrls \cup {exp}}
InSpan == {<<Sp(m, << >>, <<W("a"), Ln(<< >>, One, "", u), W("b")>>)>> : m \in AllMarks, u \in {ex, rel1}}
     \cup {<<Sp(m, << >>, <<Ln(<< >>, One, "", u)>>)>> : m \in {"*", "**"}, u \in {ex, exs}}
Texts == {<<Sp(m, a, One)>> : m \in AllMarks, a \in {<< >>, <<cls>>}}
   \cup {<<W("a"), Sp(m, << >>, One), W("b")>> : m \in AllMarks}
   \cup {<<W("a"), Code("b c")>>, <<Im("", << >>, pic, "", NoUrl)>>, <<Im("", << >>, pic, "alt", NoUrl)>>,
         <<Cp("HTML")>>, <<W("größe")>>, <<Gl("it's", "it’s")>>, <<Gl("a & b", "a & b")>>, <<W("a"), Gl("--", "—"), W("b")>>,
         <<W("a"), Gl("(b)", "(b)"), W("c")>>, <<Gl("f(x)", "f(x)"), W("c")>>}
TextSet == {<<W("see"), Ln(<< >>, t, ti, u), W("end")>> : t \in Texts, ti \in {"", "title"}, u \in {ex, rel1}}
\* ... also in brackets, quotes and next to each other
Quoted == {Gl("\"q\"", "“q”"), Gl("'q'", "‘q’"), Gl("(\"q\")", "(“q”)"), Gl("(\")", "(\")"), Gl("(q)", "(q)"), Gl("[q]", "[q]"), Gl("{q}", "{q}")}
TextSet2 == {<<W("see"), Paren(Ln(<< >>, t, ti, u)), W("end")>> : t \in Texts, ti \in {"", "title"}, u \in {ex, rel1, exp}}
  \cup {<<Paren(Ln(<< >>, t, "", u)), q, W("end")>> : t \in Texts, q \in Quoted, u \in {ex, rel1}}
  \cup {<<W("x"), q, Paren(Ln(<< >>, t, "", u))>> : t \in Texts, q \in Quoted, u \in {ex, rel1}}
\* a text of several lines
LinesSet == {<<W("see"), Ln(a, t, ti, u), W("end")>> : a \in {<< >>, <<cls>>}, t \in {<<W("two"), NL, W("lines")>>, <<Sp("*", << >>, One), NL, W("b"), NL, Code("c")>>, <<W("a"), NL, Im("", << >>, pic, "", NoUrl), W("b")>>, <<W("a"), NL, Gl("it's", "it’s")>>},
               ti \in {"", "title"}, u \in {ex, rel1}}
       \cup {<<W("see"), NL, Ln(<< >>, <<W("two"), NL, W("lines")>>, "", ex), NL, W("end")>>, <<J(<<W("x"), LnSq(<< >>, <<W("two"), NL, W("lines")>>, "", ex), W("y")>>)>>}
Several == {<<Ln(<< >>, One, "", u), Ln(<< >>, Txt, "title", v)>> : u \in PlainUrls, v \in PlainUrls}
     \cup {<<J(<<Ln(<< >>, One, "", u), W(",")>>), Paren(Ln(<< >>, Txt, "", v))>> : u \in PlainUrls, v \in PlainUrls}
Selfs == {LnSelf(ex, "example.com"), LnSelf(exs, "example.com/a/b.html"), LnSelf(mail, "me@example.com"),
          LnSelf(rel2, "/a/b"), LnSelf(exq, "example.com/?a=1&b=2"), LnSelf(ftp, "example.com/f"), LnSelf(rel1, "page.html")}
Lits == {"\"text\" :http://x.y", "\"text\": x", "a\"b:c", "text:http", "mailto:me", "\"x\" y", "[x]filename.txt", "[x]httpd", "[o", "x]http://a.b", "[a] [b]", "[]http://a.b", "[x] http://a.b"}

\* -- aliases: definitions and uses, in any order
ftpq == U("http://example.com/x?y=1&z=2", "http://example.com/x?y=1&z=2", "http")
AlBlocks == {
  Al("one", ex, "example.com"), Al("two", exs, "example.com/a/b.html"), Al("one", rel2, "/a/b"), Al("xy2", ftpq, "example.com/x?y=1&z=2"),
  P(<<Ln(<< >>, One, "", Alias("one"))>>), P(<<W("see"), Ln(<<cls>>, Txt, "title", Alias("two")), W("x")>>),
  P(<<Ln(<< >>, One, "", Alias("xy2")), J(<<Ln(<< >>, One, "", Alias("one")), W(".")>>)>>),
  Host("li", <<Ln(<< >>, One, "", Alias("one"))>>), Host("td", <<Ln(<< >>, One, "", Alias("one"))>>),
  P(<<W("plain")>>), PX(FALSE, <<cls>>, <<Paren(Ln(<< >>, One, "", Alias("two")))>>)}
\* definitions of all kinds, and links of all kinds to them
Names == {"one", "x1", "größe", "a-b", "A", "a.b"}
AlUrls == {<<ex, "example.com">>, <<exs, "example.com/a/b.html">>, <<rel2, "/a/b">>, <<mail, "me@example.com">>, <<ftp, "example.com/f">>, <<exq, "example.com/?a=1&b=2">>, <<tel, "123">>,
           <<U("/a?b=1&c=2", "/a?b=1&c=2", ""), "/a?b=1&c=2">>, <<U("https://example.com/a_b_c/*d*", "https://example.com/a_b_c/*d*", "https"), "example.com/a_b_c/*d*">>,
           <<js, "">>, <<U("foo:bar", "foo:bar", "foo"), "">>}
AlDefs == {Ald(n, u[1], u[2]) : n \in Names, u \in AlUrls}
FewDefs == {Ald(n, u[1], u[2]) : n \in {"one"}, u \in AlUrls}
AlPlaces(d) == {<<W("a"), d, W("b")>>, <<d, W("b")>>, <<W("a"), d>>, <<W("a"), d, NL, W("b")>>,
                <<Ln(<< >>, One, "", Alias(d.n)), d>>, <<d, Ln(<< >>, One, "", Alias(d.n)), W("b")>>, <<d, J(<<Ln(<< >>, One, "", Alias(d.n)), W(",")>>), W("b")>>,
                <<d, Paren(Ln(<< >>, One, "title", Alias(d.n)))>>, <<d, Sp("*", << >>, <<W("a"), Ln(<<cls>>, Txt, "", Alias(d.n)), W("b")>>)>>,
                <<d, Ln(<< >>, One, "", Alias(d.n)), Ln(<< >>, Txt, "", Alias("other"))>>}
RandAl(i) ==
  LET k == RE(1..6)
      n == RE(Names)
      u == RE(AlUrls)
  IN CASE k = 1 -> IF u[1].s \in RestrictedSchemes \cup {""} THEN Al(n, u[1], u[2]) ELSE P(<<W("plain")>>)
       [] k = 2 -> Host(RE({"p", "px", "li", "h2", "bq", "lii"}), <<W("a"), Ald(n, u[1], u[2]), W("b")>>)
       [] k = 3 -> Host(RE({"p", "px", "li", "h2", "bq", "td", "dls", "fn"}), <<W("a"), Ln(<< >>, One, RE({"", "title"}), Alias(n)), W("b")>>)
       [] k = 4 -> P(<<Ln(<< >>, One, "", Alias(n)), W("and"), Paren(Ln(<<cls>>, Txt, "", Alias(RE(Names)))), Ln(<< >>, One, "", ex)>>)
       [] k = 5 -> P(<<Ald(n, u[1], u[2]), Ln(<< >>, One, "", Alias(n)), Ald(RE(Names), ex, "example.com"), W("b")>>)
       [] OTHER -> P(<<W("plain")>>)

Blocks(m) ==
  CASE m = "full" -> Hosted(Full, {"p", "td"})
    [] m = "titles" -> Hosted(TitleSet, {"p", "li", "td", "h2"})
    [] m = "urls" -> Hosted(UrlSet, {"p", "li"})
    [] m = "ctx" -> Hosted(Ctx, HostKinds)
    [] m = "ctxt" -> Hosted(CtxT, HostKinds)
    [] m = "sq" -> Hosted(SqCtx, {"p", "td"})
    [] m = "inspan" -> Hosted(InSpan, {"p", "bq"})
    [] m = "texts" -> Hosted(TextSet, {"p", "li"})
    [] m = "texts2" -> Hosted(TextSet2, {"p", "td"})
    [] m = "lines" -> Hosted(LinesSet, {"p", "bq", "h2", "li", "td2", "dlw", "fn"})
    [] m = "several" -> Hosted(Several, {"p", "td"})
    [] m = "self" -> Hosted(UNION {Contexts(s) : s \in Selfs}, {"p", "li", "td", "h2"})
    [] m = "lits" -> Hosted({<<W("x"), Gl(s, s), W("z")>> : s \in Lits}, {"p", "li"})
    [] m = "alias" -> AlBlocks
    [] m = "aldefs" -> {P(t) : t \in UNION {AlPlaces(d) : d \in AlDefs}}
    [] m = "alhosts" -> Hosted(UNION {{<<W("a"), d, W("b")>>, <<W("a"), d, Ln(<< >>, One, "", Alias("one")), W("b")>>} : d \in FewDefs}, HostKinds \ {"fn"})
Cfgs(m) == IF m \in {"urls", "full", "self"} THEN BothModes \cup {Rel, Lite, LiteR} ELSE BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
InitR == DocInit(BothModes \cup {Rel, Xhtml})
NextA == \/ WalkEnd(Depth)
         \/ Len(doc) < Depth /\ \E b \in {RandAl(Len(doc))} : WriteOrSkip(b)
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ WriteHosted({"p", "px", "h2", "bq", "li", "td2", "fn"}, RandText({"w", "w", "ln", "sp", "pun", "par", "im", "code"}, 2))
=============================================================================
