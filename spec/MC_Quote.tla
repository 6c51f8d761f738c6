------------------------------ MODULE MC_Quote ------------------------------
(* Text in attributes: escaped exactly once, and it stays in its attribute *)
EXTENDS Lib
CONSTANTS Model, Depth
\* what an author may write where it ends up in an attribute
Nasty == {"a & b", "a &amp; b", "&lt;b&gt;", "<b>", "a < b", "a > b", "it's", "' onclick='e", "$1", "a\\b", "\\", "größe", "日本", "a*b*c", "*a*", "_a_", "-a-", "a -b- c",
          "a--b", "a -- b", "...", "&#39;", "&quot;", "&x", "&;", "a;b", "a=b", "/>", "-->", "a[1]", "%x%", "+a+", "~a~", "^a^", "??a??", "http://x.y", "a[#n]", "2 x 3", "ABC", "ABC(x)", "javascript:e", "1/2",
          "&#60;", "</b>", "<br />", "'", "a''b", "&lt;", "&amp;lt;", "[2]", "x[3!]", "*", "_", "|-", "é & ü", "a\\1", "$", "^", "a:b c:d", "😀"}
Parens(s) == Contains(s, "(") \/ Contains(s, ")")
Has1(s, x) == Contains(s, x)
\* "|" ends a cell
Bars(s) == Contains(s, "|")
\* with a double quote: not in the text of a link
Quotes == {"a \" b", "\"", "\" onclick=\"e", "\"x\"", "\"><b>", "&\"&", "'\"'", "\"'", "it's \"x\""}
\* An acronym's explanation is processed together with the text around it
Plain == {"a & b", "a &amp; b", "größe", "日本", "$1", "a\\b", "a;b", "a=b", "{x}", "a < b", "&lt;b&gt;", "&amp;lt;", "a > b", "&#39;", "&quot;x"}
W1 == <<W("word")>>
\* ------------------------------------------------------------------ positions
Titles == {t \in Nasty : ~Parens(t)}
Summary(s) == Tb(TRUE, << >>, s, NoCap, << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, W1)>>)>>)
\* styles: everything but "}"
Sty(t) == <<"sty", "content:" \o t>>
Lang(t) == <<"lang", t>>
NotIn(S, xs) == {t \in S : \A x \in xs : ~Contains(t, x)}
StyVals == {Sty(t) : t \in Nasty \cup Quotes}
LangVals == {Lang(t) : t \in NotIn(Nasty \cup Quotes, {"[", "]"})}
Vals == StyVals \cup LangVals
\* not in a row of a table
RowVals == {v \in Vals : ~Bars(v[2])}
OnBlock(a) == {PX(FALSE, <<a>>, W1), H(FALSE, "2", <<a>>, W1), Bq(TRUE, <<a>>, NoUrl, W1), Pre(FALSE, <<a>>, "word"), Fn("1", <<a>>, TRUE, W1)}
OnList(a) == {Lst(<<Li("*", "", <<a>>, W1), Li("*", "", << >>, W1)>>), Lst(<<Li("#", "", << >>, W1), Li("#", "", <<a>>, W1), Li("##", "", <<a>>, W1)>>),
              Lst(<<Li(";", "", <<a>>, W1), Li(":", "", <<a>>, W1)>>), Dls(<<Di(<<a>>, W1, W1)>>)}
OneRow(ra, ca) == <<Row("", << >>, ra, <<Cell(FALSE, ca, W1), Cell(TRUE, ca, W1)>>)>>
OnTable(a) == {Tb(TRUE, <<a>>, "", NoCap, << >>, OneRow(<< >>, << >>)), Tb(FALSE, << >>, "", NoCap, << >>, OneRow(<<a>>, << >>)),
               Tb(FALSE, << >>, "", NoCap, << >>, OneRow(<< >>, <<a>>)), Tb(TRUE, << >>, "", Cap(<<a>>, "cap"), << >>, OneRow(<< >>, << >>)),
               Tb(FALSE, << >>, "", NoCap, << >>, <<Row("^", <<a>>, << >>, <<Cell(FALSE, << >>, W1)>>)>>),
               Tb(FALSE, << >>, "", NoCap, <<Col("", "10", <<a>>), Col("", "20", <<a>>)>>, OneRow(<< >>, << >>))}
\* phrases are processed first
SpanVals == {v \in Vals : \A x \in {"^", "*a*", "_a_", "-a-", "-b-", "+a+", "~a~", "??", "%"} : ~Contains(v[2], x)}
LinkVals == {v \in Vals : ~Contains(v[2], "\"")}
Blocks(m) ==
  CASE m = "links" -> Hosted({<<W("x"), Ln(<< >>, W1, t, ex), W("y")>> : t \in Titles} \cup {<<Ln(<<cls>>, W1, t, rel1), Ln(<< >>, W1, t, ex)>> : t \in Titles}, {"p", "li"})
                \cup Hosted({<<W("x"), Ln(<< >>, W1, t, ex), W("y")>> : t \in NotIn(Titles, {"|"})}, {"td"})
    [] m = "images" -> Hosted({<<W("x"), Im("", << >>, pic, t, NoUrl), W("y")>> : t \in Titles \cup Quotes}
                         \cup {<<W("x"), Im(">", << >>, pic, t, ex), W("y")>> : t \in Titles \cup Quotes}, {"p", "li"})
    [] m = "acronyms" -> Hosted({<<W("x"), Ac("ABC", t), W("y")>> : t \in Plain}, {"p", "li", "td"})
    [] m = "summaries" -> {Summary(t) : t \in Nasty \cup Quotes}
    [] m = "blocks" -> UNION {OnBlock(a) : a \in Vals}
    [] m = "lists" -> UNION {OnList(a) : a \in Vals}
    [] m = "tables" -> UNION {OnTable(a) : a \in RowVals}
    [] m = "spans" -> Hosted({<<W("x"), Sp("^", <<a>>, W1), W("y")>> : a \in SpanVals} \cup {<<W("x"), Ln(<<a>>, W1, "", ex), W("y")>> : a \in LinkVals}
                        \cup {<<W("x"), Im("", <<a>>, pic, "", NoUrl), W("y")>> : a \in Vals}, {"p", "li"})
    [] m = "pairs" -> UNION {{PX(FALSE, <<Sty(t)>>, <<Ln(<< >>, W1, t, ex), W("x"), Im("", << >>, pic, t, NoUrl)>>)} : t \in Titles}
                 \cup {Summary(t) : t \in Quotes}
Cfgs(m) == {Cfg0, Restricted}
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
=============================================================================
