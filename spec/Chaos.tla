-------------------------------- MODULE Chaos --------------------------------
(***************************************************************************)
(* The environment without any assumption: an author who writes arbitrary  *)
(* text.  A text grows by fragments of Textile and HTML syntax, complete   *)
(* constructs and broken ones, line ends, control and Unicode characters,  *)
(* the converter's own internal names; all of them in any order.  What the *)
(* converter does to such a text is judged by Monitor.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Model, Depth,
          Mode  \* "any", "restricted" or "open"

VARIABLES cfg, text, n, len
vars == <<cfg, text, n, len>>

\* ------------------------------------------------------------------ fragments
Blank == {" ", "\n", "\n\n", "\t"}
Wd == {"word", "x", "A", "1", "ABC", "größe", "日本", "é", "12"}
Pn == {".", ",", ";", ":", "!", "?", "(", ")", "[", "]", "{", "}", "'", "\"", "-", "--", "...", "/", "\\", "|", "=", "&", "#", "$", "%",
       "@", "~", "^", "_", "*", "+", "`", "<", ">"}
Marks == {"*", "**", "_", "__", "??", "-", "+", "^", "~", "%", "@", "==", "[*", "*]", "[_", "_]", "%{color:red}", "*(c#i)", "_[en]"}
BlockStart == {"\n\np. ", "\n\nh1. ", "\n\nh3(c). ", "\n\nbq. ", "\n\nbq.. ", "\n\nbq.:http://q.com ", "\n\nbc. ", "\n\nbc.. ", "\n\npre. ", "\n\npre.. ",
               "\n\nnotextile. ", "\n\nnotextile.. ", "\n\n###. ", "\n\n###.. ", "\n\nfn1. ", "\n\nfn2^. ", "\n\nfn3(c#i){color:red}[en]. ", "\n\nnote#a. ", "\n\nnote#b!. ", "\n\nnote#a(c#i){s:t}. ", "\n\nnote#c[en](c)^. ",
               "\n\nnotelist. ", "\n\nnotelist:1^+. ", "\n\nnotelist(c){x:y}. ", "\n\np>. ", "\n\np<. ", "\n\np=. ", "\n\np<>. ", "\n\np((. ", "\n\np))(c#i){s:t}[en]. ", "\n\np(c)[en]>. ",
               "\n\nbc[php]. ", "\n\nbc(c#i){s:t}[en].. ", "\n\nh7. ", "p. ", "bq. ", "\n\n ", "\n\nbq(c#i)..:http://q.com "}
ListStart == {"\n* ", "\n** ", "\n*** ", "\n# ", "\n## ", "\n#5 ", "\n#_ ", "\n*# ", "\n#* ", "\n; ", "\n: ", "\n- ", " := ", " =:\n", "\n\n* ", "\n\n# ", "\n*(c#i) ", "\n#(c){s:t} ", "\n;(c) ",
              "\n#99999999999999999999 ", "\n- term := ", "\n-(c) t := ", "\n*{a:b[1]} ", "\n#{a:*b* c} ", "\n-{a:b[#a]} t := ", "\n;[en[1]] "}
TableBits == {"|", "|", "\n|", "|\n|", "|\n\n", "|\n\n|", "|_. ", "|\\2. ", "|/2. ", "|>. ", "|^. ", "|(c#i){s:t}[en]. ", "\n\ntable. \n|", "\n\ntable(c#i){s:t}[en]. sum\n|", "\n|^.\n|", "\n|-.\n|", "\n|~.\n|", "\n|=. cap\n|",
              "\n|:\\3. 100|(c). |\n|", "\n\n|a|b|\n|c|d|\n", "\n(c). |", "\n{x:y}. |", "|\n", "\n|:. 50%|", "|<>. ", "|~(. ", "|-_\\2/3>(c). ", "\n\ntable. a[1] *b* [#a]\n|", "|{a:b[1] *c*}. ", "\n{a:-b- c}. |", "\n\ntable{a:b[1]}. \"q\"\n|", "|={x[1]}. cap|", "\n|^{a:_b_ [1]}.\n|"}
LinkBits == {"\"l\":http://a.com/x", "\"l(t)\":http://a.com", "\"(c#i)l\":b", "\"l\":al", "\n[al]http://z.com\n", "\"$\":http://a.com", "\":", "\":http://a.com", "[\"l\":http://b.com]", "\"l\":/a?b=c&d=e",
             "\"l\":mailto:a@b.com", "\"", "\"l\":#x", "\"l\":http://ü.com/ä(ö)?ß=é#ç", "\"l\":http://[::1]:80/", "\"l\":http://a:b@c.com:99/", "\"l\":data:x,y", "\"l\":tel:1", "\"{s:t}(c)[en]l\":u",
             "\"l\":..", "\"l\":.", "\"l\":/", "\"l\":http://", "\"l\":?", "\"l\":%zz", "\"l\":a:b:c", "\"l\":'q'", "\"!i.png!\":u"}
ImageBits == {"!i.png!", "!i.png(t)!", "!>i.png!:http://a.com", "!(c#i){s:t}i.png!", "!<i.png!", "!=i.png!", "!", "!i", "png!", "!i.png!:al", "!http://x.com/i.png?a=b&c=d!", "!{width:5px}i.png!", "!^i.png!", "!i.png 10x20!"}
NoteBits == {"[1]", "[2!]", "x[1]", "x[2]", "x[3!]", "[#a]", "[#b]", "x[#a!]", "x[#b]", "x[#c]", "[", "]", "[#", "x[(c)#a]", "[12345678901234567890]"}
CodeBits == {"@c@", "@a < b@", "@", "<code>", "</code>", "<pre>", "</pre>", "<pre><code>", "<notextile>", "</notextile>", "==", "==<b>==", "@<b>@", "\n==\n", "<code>x</code>"}
HtmlBits == {"<b>", "</b>", "<div>", "</div>", "<script>alert(1)</script>", "<!-- c -->", "<!--", "-->", "<br>", "<br />", "<a href=\"u\">", "</a>", "<p>", "</p>", "<img src=\"x\" onerror=\"e\">",
             "<", ">", "</", "<b", "/>", "&lt;", "&gt;", "&amp;", "&quot;", "&#39;", "&#x3c;", "&#60;", "&#99999999999;", "&#xD800;", "&#x110000;", "&#0;", "&", "&nbsp", "<svg onload=e>", "<hr>", "<!DOCTYPE x>", "<?php ?>", "<![CDATA[", "\" onclick=\"e", "' onclick='e",
             "<p onclick=e>", "\"><b>", "<input/>", "<style>", "<B>", "<ins>", "<del>", "<object>"}
Evil == {"javascript:e", "JavaScript:e", "\"l\":javascript:e", "\"l\":JAVASCRIPT:e", "!javascript:e!", "!i.png!:javascript:e", "\n[al]javascript:e\n", "??:javascript:e c??", "\n\nbq.:javascript:e ", "\"l\":vbscript:e",
         "\"l\":data:text/html,x", "%:javascript:e c%", "*:vbscript:e s*", "\"l\":&#106;avascript:e", "\"l\":java&#9;script:e", "\"l\":java\tscript:e", "\"l\": javascript:e", "!data:e!", "\"$\":javascript:e",
         "\n\nbq.:JaVaScRiPt:e ", "\"l(\" onclick=\"e)\":u", "!i.png(\" onload=\"e)!", "ABC(\" onclick=\"e)", "*(c\" onclick=\"e)s*", "*{s:t\" onclick=\"e}s*", "*[en\" onclick=\"e]s*", "\"l\":u\"onclick=\"e", "!i.png\"onload=\"e!",
         "\n\ntable(c\" onclick=\"e). s\" onclick=\"e\n|", "ABC(<b>)", "\"<b>\":u", "\"l(<b>)\":u", "!i.png(<b>)!", "\"l\":file:///x", "\"l\":ftp://a.b/", "\"l\":sftp://a.b/", "*{background:url(javascript:e)}s*",
         "??:http://ok.com/ c??", "\"l\":\\u006aavascript:e", "\"l\":javascript%3ae", "\"l\":livescript:e", "[javascript]http://x.y"}
Forged == {"textileRef:uid0:1:shelve", "textileRef:uid0:2:shelve", "textileRef:uid0:1:url", "textileRef:uid0:2:url", " textileRef:uid0:1:ospan ", " textileRef:uid0:1:cspan", "textileRef:uid0:linkStartMarker:",
           "textileRef:uid0::glyph:", "textileRef:textileRef:uid0:uid0:1:shelve", "textileRef:uid0:", "\"l\":textileRef:uid0:1:url", "!textileRef:uid0:1:shelve!", "3:shelve", "textileRef:", "uid0:", "linkStartMarker:",
           "@textileRef:uid0:1:shelve@", "textileRef:uid0:3:shelve", "*textileRef:uid0:4:shelve*", "uid0-1", "{{notelist}}", "textileRef:uid0:1:glyph:"}
Glyphs == {"(c)", "(r)", "(tm)", "[1/2]", "[o]", "[+/-]", "2 x 3", "2x3\"", "'tis", "it's", "\"q\"", "'q'", "don't", "--", "...", " - ", "UPPER", "HTML(t)", "C++", "6'4\"", "[C]", "<p>"}
Ends == {"\r\n", "\r", "\r\n\r\n", "\r\r", "\n\n\n", "\n \n", "\n\t\n", " \n", "\n ", "\f", "\n\n\n\n\n"}
Uni == {" ", " ", " ", "​", "﻿", "́", "😀", "ß", "İ", "ﬁ", "\\", "‮", "；", "＜", "“", "’", "ǅ", "Ω", "א", "ش", "–", "—", "…", "­", "￾"}
\* words which can be told from each other
Names == <<"alfa", "bravo", "charlie", "denver", "echo", "foxtrot", "golf", "hotel", "india", "juliett", "kilo", "lima", "mike", "november", "oscar",
           "papa", "quebec", "romeo", "sierra", "tango", "uniform", "victor", "whiskey", "xray", "yankee", "zulu">>
\* syntax which is never a place where text may be left out
Harmless == {" ", " ", "\n", "\n\n", "\t", " - ", ".", ",", ";", ":", "?", "'", "\"", "-", "--", "...", "a/b", "|", "=", "&", "$", "%", "~", "^", "_", "*", "+", "`", "*", "**", "_", "__", "??", "@", "@ ", " @", "==", " ==", "== ",
  "\n\np. ", "\n\nh1. ", "\n\nh3. ", "\n\nbq. ", "\n\nbq.. ", "\n\nbc. ", "\n\nbc.. ", "\n\npre. ", "\n\npre.. ", "\n\nnotextile. ", "\n\nnotextile.. ", "\n\nfn1. ", "\n\np=. ", "\n\n ", "p. ",
  "\n* ", "\n** ", "\n*** ", "\n# ", "\n## ", "\n#5 ", "\n#_ ", "\n*# ", "\n; ", "\n: ", "\n- ", " := ", "\n\n* ", "\n\n# ", "\n- term := ", "|", "|", "\n|", "|\n|", "|\n\n", "|\n\n|", "|_. ", "|\\2. ", "|/2. ", "|>. ", "|^. ", "|\n",
  "\n\ntable. \n|", "\n\n|a|b|\n|c|d|\n", "\r\n", "\n\n\n", "\n \n", "é", "日本", "😀", "“", "1", "2 x 3", "it's", "x[1]", "(c)", "\"l\":http://a.com/x ", "!i.png! ", " \"", "\" ", "\":", " !", "! ",
  "[\"l\":http://a.com/x.]", "[\"l\":http://a.com/x]", "[\"l\":http://a.com/x),]", "(\"l\":http://a.com/x)", "(\"l\":http://a.com/x).", "\"l\":http://a.com/x. ", "\"l\":http://a.com/x[1]", "\"l\":http://a.com/x][y", "\"l\":http://a.com/x?! ",
  "\"l\":http://a.com/a[]=b] ", "[*", "*]", "[_a_]", "@c@", "(@c@)", "\"l(", ")\":http://a.com ", "!i.png(", ")! ", "\n\n; ", "\n\n- a := ", " =:\n", "2 x ", "|\n|\\2. ", "\n|_. ", "\n\nbq. ", "a[1]b", "…", "«", "»", "<>", ".) ", "?! ", "!? "}

CommonFrags == Blank \cup Wd \cup Pn \cup Marks \cup BlockStart \cup ListStart \cup TableBits \cup LinkBits \cup ImageBits \cup NoteBits \cup Glyphs
Frags(m) ==
  CASE m = "all" -> CommonFrags \cup CodeBits \cup HtmlBits \cup Evil \cup Forged \cup Ends \cup Uni
    \* without "<": the author writes no HTML
    [] m = "textile" -> {f \in CommonFrags \cup Evil \cup Ends \cup Uni \cup {"@c@", "==", "@"} :
                           \A i \in 1..Len(f) : SubSeq(f, i, i) # "<"}
    [] m = "forged" -> CommonFrags \cup CodeBits \cup Forged
    [] m = "leaks" -> {f \in CommonFrags \cup CodeBits \cup Ends \cup Uni \cup {"<b>", "</b>", "<div>", "<!-- c -->"} : TRUE}
    [] m = "html" -> Blank \cup {"word", "\"", "'", "=", "*", "_", "|", "\n|", "@"} \cup CodeBits \cup HtmlBits \cup {"\n\np. ", "\n* ", "\"l\":http://a.com/x", "!i.png!", "x[1]", "\n\nbc. ", "\n\nnotextile. "}
    \* what a sanitizer is there for
    [] m = "dirty" -> Blank \cup Wd \cup HtmlBits \cup Evil \cup CodeBits \cup {"\n\np. ", "\n* ", "\"", "*", "|", "\n|", "\n\nnotextile. ", "\n\nnotextile.. ", "\n\nbc. "}
    [] m = "dirtier" -> CommonFrags \cup CodeBits \cup HtmlBits \cup Evil \cup Ends \cup Uni
    [] m \in {"words", "wordpairs"} -> Harmless
    [] m = "wordsr" -> Harmless \cup {"<", ">", "<b>", "</b>", "<div>", "<!-- ", " -->", "<code>", "</code>", "<pre>", "</pre>", "<notextile>", "</notextile>", "&amp;", "&lt;", "<br>"}
    [] m = "evil" -> Blank \cup {"word", "\"", "'"} \cup Evil \cup LinkBits \cup {"\n\nbq. ", "\n* ", "|", "\n|"}
    \* all short combinations of syntax characters
    [] m = "chars" -> {"a", " ", "\n", "*", "_", "@", "\"", ":", "(", ")", "[", "]", "!", "|", "<", ">", "&", "=", "-", "#", ".", "p", "1", "/", "'", "{", "}"}
    [] m = "bits" -> {"a", " ", "\n", "\n\n", "*", "\"", "\":u", "(c)", "[1]", "[", "!i!", "!", "|", "\n|", "<b>", "<", "@", "==", "p. ", "bq.. ", "fn1. ", "* ", "# ", "- ", ":="}
    [] m = "big" -> Marks \cup Pn \cup TableBits \cup LinkBits \cup ImageBits \cup NoteBits \cup CodeBits \cup Glyphs \cup ListStart \cup HtmlBits
                    \cup {"&#99999999999;", "*a* _b_", "\n\n", "\n"}
    [] m \in {"slots", "slotst", "slotss", "nested", "nestedt", "nesteds"} -> {}
    [] m = "kinds" -> {"word", " ", "\n\n"} \cup Marks \cup {"\"l\":http://a.com/x", "!i.png!", "x[1]", "x[#a]", "|", "\n|", "@c@", "<b>", "</b>", "(c)", "ABC", "\n* ", "\n\nbq. ", "\n\np. "}

\* ----------------------------------------------------------------------- slots
\* Every construct, with a place in it where the author may write anything
Notes8 == "x[#s] x[#s] x[#s] x[#s] x[#s] x[#s] x[#s] x[#s] x[#s]\n\nnote#s. text\n\n"
InSlots == {
  <<"", "">>, <<"a ", " z">>, <<"*", "*">>, <<"_a ", " z_">>, <<"??", "??">>, <<"%{color:", "}s%">>, <<"%{", "}s%">>, <<"*(", ")s*">>, <<"*(c#", ")s*">>, <<"_[", "]s_">>, <<"[*", "*]">>, <<"a[-", "-]z">>,
  <<"??:", " c??">>, <<"*:http://e.com/", " s*">>, <<"@", "@">>, <<"@a ", " z@">>, <<"==", "==">>, <<"a ==", "== z">>, <<"<code>", "</code>">>, <<"<pre>", "</pre>">>, <<"<notextile>", "</notextile>">>,
  <<"\"", "\":http://e.com">>, <<"\"a ", " z\":http://e.com">>, <<"\"l(", ")\":http://e.com">>, <<"\"(", ")l\":http://e.com">>, <<"\"(c#", ")l\":http://e.com">>, <<"\"{", "}l\":http://e.com">>, <<"\"[", "]l\":/u">>,
  <<"\"l\":http://e.com/", "">>, <<"\"l\":http://e.com/?", "&b=c#d">>, <<"\"l\":http://", "/x">>, <<"\"l\":http://u:p@", ":80/">>, <<"\"l\":/x#", "">>, <<"\"l\":", "">>, <<"\"$\":http://e.com/", "">>, <<"\"$\":", "">>, <<"\"$\":mailto:", "">>,
  <<"[\"l\":http://e.com/", "]">>, <<"[\"l\":", "]">>, <<"a[\"", "\":http://e.com/x.]z">>, <<"\"l\":mailto:", "">>, <<"\"!", "!\":/u">>, <<"\"!i.png(", ")!\":/u">>,
  <<"!", "!">>, <<"!http://e.com/", ".png!">>, <<"!i.png(", ")!">>, <<"!i.png!:", "">>, <<"!i.png!:http://e.com/", "">>, <<"!(", ")i.png!">>, <<"!{", "}i.png!">>, <<"!(c#", ")i.png!">>, <<"!>i.png?", "!">>, <<"!i.png ", "!">>,
  <<"ABC(", ")">>, <<"A", "C(t)">>, <<"x[", "]">>, <<"x[#", "]">>, <<"x[(", ")#a]">>, <<"(", ")">>, <<"'", "'">>, <<"\"", "\"">>, <<"[", "]">>, <<"{", "}">>, <<"<", ">">>, <<"<b ", ">">>, <<"<b class=\"", "\">">>, <<"<a href=\"", "\">l</a>">>,
  <<"<img src=", ">">>, <<"<!-- ", " -->">>, <<"&", ";">>, <<"&#", ";">>, <<"&#x", ";">>, <<"<b>", "</b>">>, <<"</", ">">>, <<"<div>", "</div>">>, <<"2 x ", "\"">>, <<"a", "b">>}
OutSlots == {
  <<"p. ", "">>, <<"p(", "). t">>, <<"p(c#", "). t">>, <<"p{", "}. t">>, <<"p[", "]. t">>, <<"p", ". t">>, <<"h2{color:", "}. t">>, <<"h", ". t">>, <<"bq. ", "">>, <<"bq.:", " t">>, <<"bq.:http://e.com/", " t">>, <<"bq(", ").. t\n\nu">>, <<"bq.. ", "\n\nu\n\np. v">>,
  <<"bc. ", "">>, <<"bc.. ", "\n\nu">>, <<"bc(", "). t">>, <<"bc[", "]. t">>, <<"bc{", "}. t">>, <<"pre. ", "">>, <<"pre(", "). t">>, <<"pre.. a\n\n", "\n\np. t">>, <<"notextile. ", "">>, <<"notextile.. ", "\n\nu">>, <<"###. ", "\n\nt">>, <<"###.. ", "\n\nt\n\np. u">>,
  <<"x[1]\n\nfn1. ", "">>, <<"x[1]\n\nfn1(", "). t">>, <<"x[1]\n\nfn1{", "}. t">>, <<"x[1]\n\nfn1(c#", ")^. t">>, <<"x[1] \n\nfn", ". t">>, <<"x[", "]\n\nfn1. t">>,
  <<"x[#s]\n\nnote#s. ", "\n\nnotelist.">>, <<"x[#s]\n\nnote#s(", "). t\n\nnotelist.">>, <<"x[#s]\n\nnote#s(c#", "). t\n\nnotelist.">>, <<"x[#s]\n\nnote#s{", "}. t\n\nnotelist:a!.">>, <<"x[#s]\n\nnote#s[", "]. t\n\nnotelist+.">>,
  <<"x[#s]\n\nnote#s", ". t\n\nnotelist.">>, <<"x[#", "]\n\nnotelist+.">>, <<"note#", ". t\n\nnotelist+.">>, <<"x[(", ")#s]\n\nnote#s. t\n\nnotelist(c)+.">>,
  <<Notes8 \o "notelist:", ".">>, <<Notes8 \o "notelist:", "^+.">>, <<Notes8 \o "notelist", ".">>, <<Notes8 \o "notelist(", ").">>, <<Notes8 \o "notelist{", "}:a!.">>, <<Notes8 \o "notelist[", "].">>, <<"x[#s] x[#t]\n\nnotelist{{", "}}.">>,
  <<"\"l\":al \"$\":al !i.png!:al\n\n[al]http://e.com/", "">>, <<"\"l\":al \"$\":al !i.png!:al\n\n[al]", "">>, <<"\"l\":", "\n\n[al]http://e.com">>, <<"\"l\":al\n\n[", "]http://e.com">>, <<"!al! bq.:al ??:al c??\n\n[al]", "">>,
  <<"[al]http://e.com/", "\n\n\"l\":al \"$\":al !i.png!:al">>, <<"[al]", "\n\n\"l\":al \"$\":al !i.png!:al">>, <<"[", "]http://e.com/x\n\n\"l\":al \"$\":al">>,
  <<"* ", "\n* b">>, <<"* a\n** ", "\n*** c">>, <<"# ", "">>, <<"#", " b">>, <<"#_\n", "\n#_ b">>, <<"*(", ") a">>, <<"*{", "} a">>, <<"#(c#", ") a\n# b">>, <<"#[", "] a">>, <<"; ", "\n: d">>, <<"; t\n: ", "">>, <<";(", ") t\n: d">>, <<"- ", " := d">>, <<"- t := ", "">>, <<"- t := ", " =:\n- u := v">>,
  <<"-(", ") t := d">>, <<"-{", "} t := d">>, <<"- t\n- ", " :=\nd =:">>,
  <<"|", "|b|">>, <<"|a|", "|\n|c|d|">>, <<"|_. ", "|">>, <<"|(", "). a|">>, <<"|{", "}. a|">>, <<"|[", "]. a|">>, <<"|(c#", "). a|">>, <<"|\\", ". a|b|">>, <<"|/", ". a|b|">>, <<"|", ". a|">>, <<"(", "). |a|">>, <<"{", "}. |a|b|">>, <<"[", "]. |a|">>,
  <<"table(", "). \n|a|">>, <<"table. ", "\n|a|">>, <<"table{", "}. s\n|a|">>, <<"table(c#", "). s\n|a|">>, <<"table[", "]. s\n|a|">>, <<"table. s\n|=. ", "\n|a|">>, <<"table. s\n|={", "}. c\n|a|">>, <<"table. s\n|=(", "). c\n|a|">>,
  <<"table. s\n|:", ". 10|20|\n|a|b|">>, <<"table. s\n|:\\2. ", "|\n|a|b|">>, <<"table. s\n|:(", "). 10|(c). 20|\n|a|b|">>, <<"table. s\n|:{", "}. |\n|a|">>, <<"|^(", ").\n|a|\n|-.\n|b|">>, <<"|^{", "}.\n|a|\n|~.\n|b|">>, <<"|^[", "].\n|a|">>,
  <<"|_. a|\n|", "|">>, <<"|a\n", "\nb|c|">>, <<"|* a\n* ", "|b|">>, <<"a\n", "\nb">>, <<"a\n\n", "\n\nb">>, <<" ", "">>, <<"<div>\n\n", "\n\n</div>">>, <<"<pre>\n", "\n\n</pre>">>, <<"<", ">\n\nt">>, <<"a\n\n==\n", "\n==\n\nb">>}
NoHtml(x) == \A i \in 1..Len(x) : SubSeq(x, i, i) # "<"
InSlotSet == IF Model \in {"slotst", "nestedt"} THEN {x \in InSlots : NoHtml(x[1] \o x[2])} ELSE InSlots
SlotSet == InSlotSet \cup (IF Model \in {"slotst", "nestedt"} THEN {x \in OutSlots : NoHtml(x[1] \o x[2])} ELSE OutSlots)
Payloads == {"", "x", "<b>", "</b>", "<script>e</script>", "\"", "'", "\"'", "\"><b>", "'><b>", "\" onclick=\"e", "' onclick='e", "<", ">", "&", "&lt;b&gt;", "&quot;", "&#34;", "&#39;", "&#60;b&#62;", "&amp;lt;", "%22%3E%3Cb%3E", "%", "\\",
  "javascript:e", "JaVaScRiPt:e", " javascript:e", "vbscript:e", "data:text/html,e", "&#106;avascript:e", "java&#10;script:e", "java\tscript:e", "file:///x", "tel:1", "//e.com", "x:y", ":", "http:javascript:e",
  "textileRef:uid0:1:shelve", "textileRef:uid0:1:url", "textileRef:uid0:2:ospan ", "textileRef:uid0:linkStartMarker:", "3:shelve", "uid0", ":glyph:",
  "*s*", "_s t_", "@c@", "==n==", "\"l\":http://f.com", "!j.png!", "[1]", "x[1]", "[#q]", "(c)", "HTML", "ABC(t)", "--", "it's", "2 x 3", "?", ".", ". ", ",", "!", ")", "(", "]", "[", "}", "{", "|", "\n", "\n\n", " ", "\t", "\r\n",
  "a b", "a_b", "*", "_", "@", "==", "#", "#x", "0", "-1", "99999999999999999999", "1", "12", "é", "日本", "😀", "İ", "ß", "%ff", "%C3", "%", "a%20b", "éé é", "ÀÉÎ", "a\fb", "e.com", "http://", "//", "..", "a:b@c", "[::1]", "xn--a", "à́", " ", "​", "‮", "퟿", "ퟻ", "􏿾", "z", "Z", "я", "§", "a-b", "a;b:c", "url(javascript:e)", "expression(e)", "width:5px",
  "a@b@c ==d== e", "k @a ==x== b@ l", "@a \"l\":http://f.com b@", "==a @b@ c==", "!j.png(t @c@ u)!", "\"l(t @c@ u)\":http://f.com", "*a @b@ \"l *m*\":http://f.com/@c@ d*", "<b class=\"x\">y</b>", "<br>", "<!-- c -->", "<code>k</code>", "<pre>k</pre>", "&#99999999999;", "&#xD800;"}
PayloadSet == IF Model \in {"slotst", "nestedt"} THEN {x \in Payloads : NoHtml(x)} ELSE Payloads

\* -------------------------------------------------------------------- settings
Base == [restricted |-> FALSE, lite |-> FALSE, images |-> TRUE, html |-> "html5", rel |-> "", block_tags |-> TRUE,
         align_class |-> "unset", raw_blocks |-> FALSE, sanitize |-> FALSE, uid |-> "uid0"]
AllCfgs == [restricted : BOOLEAN, lite : BOOLEAN, images : BOOLEAN, html : {"html5", "xhtml"}, rel : {"", "nofollow"},
            block_tags : BOOLEAN, align_class : {"unset", "on"}, raw_blocks : BOOLEAN, sanitize : BOOLEAN, uid : {"uid0"}]
RestrictedCfgs == {c \in AllCfgs : c.restricted}
Cfgs(m) ==
  CASE m = "html" -> {c \in RestrictedCfgs : ~c.sanitize}
    [] m = "words" -> {c \in AllCfgs : ~c.sanitize}
    [] m = "wordsr" -> {c \in RestrictedCfgs : ~c.sanitize}
    [] m \in {"textile", "evil"} -> {c \in AllCfgs : ~c.sanitize}
    [] m = "leaks" -> {c \in AllCfgs : ~c.sanitize}
    [] m \in {"dirty", "dirtier"} -> {c \in AllCfgs : c.sanitize}
    [] m \in {"slots", "slotst"} -> {Base, [Base EXCEPT !.restricted = TRUE]}
    [] m = "slotss" -> {[Base EXCEPT !.sanitize = TRUE], [Base EXCEPT !.sanitize = TRUE, !.restricted = TRUE]}
    [] m = "nested" -> {c \in AllCfgs : ~c.sanitize}
    [] m = "nestedt" -> {c \in AllCfgs : ~c.sanitize}
    [] m = "nesteds" -> {c \in AllCfgs : c.sanitize}
    [] m \in {"chars", "bits", "big", "wordpairs"} -> {Base, [Base EXCEPT !.restricted = TRUE]}
    [] OTHER -> AllCfgs

Modes == {c \in Cfgs(Model) : Mode = "any" \/ c.restricted = (Mode = "restricted")}

FragSet == Frags(Model)
Emit == text = "" \/ PrintT("@@" \o ToJson([c |-> cfg, s |-> text]))

\* every text of up to Depth fragments
Init == /\ cfg \in Modes
        /\ text = "" /\ n = 0 /\ len = Depth
Next == /\ Emit
        /\ n < len
        /\ \E f \in FragSet : text' = text \o f
        /\ n' = n + 1
        /\ UNCHANGED <<cfg, len>>

\* large blocks: one or two fragments, repeated 2^(Depth - 1) times
NextBig == /\ (IF n = len THEN Emit ELSE TRUE)
           /\ n < len
           /\ IF n = 0 THEN \E f \in FragSet, g \in {"", " ", "a"} : text' = f \o g
                       ELSE text' = text \o text
           /\ n' = n + 1
           /\ UNCHANGED <<cfg, len>>

\* every payload in every slot, ...
NextS == /\ Emit
         /\ n = 0
         /\ \E t \in SlotSet, p \in PayloadSet : text' = t[1] \o p \o t[2]
         /\ n' = 1
         /\ UNCHANGED <<cfg, len>>
\* ... and in slots within slots
InitSR == /\ cfg \in Modes
          /\ text = "" /\ n = 0 /\ len \in 3..Depth
NextSR == \/ n = len /\ Emit /\ FALSE
          \/ /\ n < len
             /\ IF n = 0 THEN \E p \in {RandomElement(IF n >= 0 THEN PayloadSet ELSE {})} : text' = p
                ELSE \E t \in {RandomElement(IF n = len - 1 THEN SlotSet ELSE InSlotSet)} : text' = t[1] \o text \o t[2]
             /\ n' = n + 1
             /\ UNCHANGED <<cfg, len>>

\* random texts of up to Depth fragments
InitR == /\ cfg \in Modes
         /\ text = "" /\ n = 0 /\ len \in {3, 5, 8, 12, Depth}
NextR == \/ n = len /\ Emit /\ FALSE
         \/ /\ n < len
            /\ \E f \in {RandomElement(IF n >= 0 THEN FragSet ELSE {})} : text' = text \o f
            /\ n' = n + 1
            /\ UNCHANGED <<cfg, len>>
\* ... with words of their own in between
NextW == \/ n = len /\ Emit /\ FALSE
         \/ /\ n < len
            /\ \E f \in {RandomElement(IF n >= 0 THEN FragSet ELSE {})}, w \in {RandomElement(IF n >= 0 THEN 1..3 ELSE {})} :
                 text' = text \o f \o (IF w = 1 THEN "" ELSE Names[n + 1])
            /\ n' = n + 1
            /\ UNCHANGED <<cfg, len>>
\* ... and all pairs of fragments with words around them
NextWA == /\ Emit
          /\ n = 0
          /\ \E f, g \in FragSet : text' = "alfa" \o f \o "bravo" \o g \o "charlie"
          /\ n' = 1
          /\ UNCHANGED <<cfg, len>>
=============================================================================
