------------------------------ MODULE MC_Images -----------------------------
(* Images *)
EXTENDS Lib
CONSTANTS Model, Depth
ImgUrls == {pic, picabs, U("/i/p.gif", "/i/p.gif", ""), U("../a/b.jpg", "../a/b.jpg", ""), U("a.png?x=1&y=2", "a.png?x=1&y=2", ""),
            U("https://example.com/x.png", "https://example.com/x.png", "https"), U("a_b_c.png", "a_b_c.png", ""),
            U("ftp://example.com/x.png", "ftp://example.com/x.png", "ftp"),
            U("http://example.com/ä.png", "http://example.com/%C3%A4.png", "http"),
            U("data:image/png,x", "data:image/png,x", "data"), js, U("foo:x.png", "foo:x.png", "foo")}
Titles == {"", "alt", "two words", "a < b", "a & b", "größe", "it's"}
Hrefs == {NoUrl, ex, exs, exq, rel1, rel2, rel3, mail, js, U("foo:bar", "foo:bar", "foo")}
Aligns == {"", "<", ">", "="}

Full == {<<W("see"), Im(al, a, pic, ti, hr), W("now")>> : al \in Aligns, a \in SpanAtts, ti \in {"", "alt"}, hr \in {NoUrl, ex}}
UrlSet == {<<W("see"), Im("", << >>, u, ti, hr), W("now")>> : u \in ImgUrls, ti \in {"", "alt"}, hr \in Hrefs}
TitleSet == {<<Im(al, << >>, pic, ti, hr)>> : al \in {"", ">"}, ti \in Titles, hr \in {NoUrl, ex, rel1}}
Ctx == UNION {Contexts(Im(al, a, pic, ti, hr)) : al \in {"", ">"}, a \in {<< >>, <<cls>>}, ti \in {"", "alt"}, hr \in {NoUrl, rel1}}
InSpan == {<<Sp(m, << >>, <<W("a"), Im("", << >>, pic, "alt", hr), W("b")>>)>> : m \in AllMarks, hr \in {NoUrl, ex}}
\* in brackets, right next to words; a space before the title
SqSet == UNION {{<<J(<<W("in"), i, W("out")>>)>>, <<i>>, <<W("a"), i, W("b")>>, <<J(<<i, W("out")>>), W("b")>>, <<J(<<W("in"), i>>), NL, W("b")>>}
                : i \in {ImSq(al, a, u, ti, hr) : al \in {"", ">", "="}, a \in {<< >>, <<cls>>, <<sty, lang>>}, u \in {pic, picabs}, ti \in {"", "alt"}, hr \in {NoUrl, ex, rel1}}}
TsSet == {<<W("a"), ImTs(al, a, u, ti, hr), W("b")>> : al \in {"", "<"}, a \in {<< >>, <<cls>>}, u \in {pic, picabs}, ti \in {"alt", "two words"}, hr \in {NoUrl, ex}}
AlSet == {<<Ald("one", u, ""), Im("", << >>, pic, ti, Alias("one")), W("b")>> : u \in {ex, rel2}, ti \in {"", "alt"}}
   \cup {<<Im("", << >>, pic, ti, Alias("one")), W("b"), Ald("one", u, "")>> : u \in {ex, rel2}, ti \in {"", "alt"}}
Lits == {"! x !", "a!b!c", "wow! great!", "!!", "x !y"}

Blocks(m) ==
  CASE m = "full" -> Hosted(Full, {"p"})
    [] m = "urls" -> Hosted(UrlSet, {"p", "li"})
    [] m = "titles" -> Hosted(TitleSet, {"p", "h2", "li"})
    [] m = "sq" -> Hosted(SqSet, {"p", "td2", "li"})
    [] m = "ts" -> Hosted(TsSet \cup AlSet, {"p", "li", "bq"})
    [] m = "ctx" -> Hosted(Ctx, HostKinds)
    [] m = "inspan" -> Hosted(InSpan, {"p", "td"})
    [] m = "lits" -> Hosted({<<W("x"), Gl(s, s), W("z")>> : s \in Lits}, HostKinds)
Kinds3 == {Cfg0, Restricted, NoImages, Xhtml, Rel,
           [Cfg0 EXCEPT !.align_class = "off"], [Xhtml EXCEPT !.align_class = "on"], [NoImages EXCEPT !.restricted = TRUE]}
Cfgs(m) == IF m \in {"full", "titles"} THEN Kinds3 ELSE IF m \in {"urls", "ctx"} THEN {Cfg0, Restricted, NoImages} ELSE BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
InitR == DocInit(Kinds3)
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     \* when images are off, "!<pic" remains as text which looks like HTML
     /\ \E t \in {RandText({"w", "im", "im", "sp", "par", "ln"}, 2)} :
          IF ~cfg.images /\ Contains(Srcs(t), "!<") THEN UNCHANGED vars
          ELSE WriteHosted({"p", "px", "h2", "bq", "li", "td2", "fn"}, t)
=============================================================================
