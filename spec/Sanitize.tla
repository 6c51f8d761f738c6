------------------------------ MODULE Sanitize ------------------------------
(***************************************************************************)
(* The final sanitising step: a filter over the tokens of a well-nested    *)
(* document.  Elements outside of the safe vocabulary lose their tags,     *)
(* scripts and styles also lose their content, comments disappear, only    *)
(* safe attributes and URLs remain.                                        *)
(***************************************************************************)
EXTENDS Html

SafeTags == {"a", "abbr", "acronym", "area", "article", "aside", "b", "bdi", "bdo", "blockquote", "br", "caption", "center", "cite", "code",
  "col", "colgroup", "data", "dd", "del", "details", "dfn", "div", "dl", "dt", "em", "figcaption", "figure", "footer", "h1", "h2",
  "h3", "h4", "h5", "h6", "header", "hgroup", "hr", "i", "img", "ins", "kbd", "li", "map", "mark", "nav", "ol", "p", "pre",
  "q", "rp", "rt", "rtc", "ruby", "s", "samp", "small", "span", "strike", "strong", "sub", "summary", "sup", "table", "tbody",
  "td", "th", "thead", "time", "tr", "tt", "u", "ul", "var", "wbr"}
Dropped == {"script", "style"}

SafeAtts(n) ==
  {"lang", "title"} \cup
  CASE n = "a" -> {"href", "hreflang"}
    [] n = "blockquote" -> {"cite"}
    [] n = "bdo" -> {"dir"}
    [] n \in {"col", "colgroup"} -> {"align", "char", "charoff", "span"}
    [] n \in {"del", "ins"} -> {"cite", "datetime"}
    [] n = "q" -> {"cite"}
    [] n = "hr" -> {"align", "size", "width"}
    [] n = "img" -> {"align", "alt", "height", "src", "width"}
    [] n = "ol" -> {"start"}
    [] n = "table" -> {"align", "char", "charoff", "summary"}
    [] n \in {"tbody", "thead", "tr"} -> {"align", "char", "charoff"}
    [] n = "td" -> {"align", "char", "charoff", "colspan", "headers", "rowspan"}
    [] n = "th" -> {"align", "char", "charoff", "colspan", "headers", "rowspan", "scope"}
    [] OTHER -> {}

SafeUrlSchemes == {"bitcoin", "ftp", "ftps", "geo", "http", "https", "im", "irc", "ircs", "magnet", "mailto", "mms", "mx", "news", "nntp",
  "openpgp4fpr", "sip", "sms", "smsto", "ssh", "tel", "url", "webcal", "wtai", "xmpp"}
\* the addresses a browser follows ("cite" isn't one of them)
UrlAtts(n) == CASE n = "a" -> {"href"} [] n = "img" -> {"src"} [] OTHER -> {}

RECURSIVE SchemeFrom(_, _)
\* the scheme of a URL of the models ("" if it's relative)
SchemeFrom(s, i) ==
  IF i > Len(s) \/ Ch(s, i) \in {"/", "?", "#"} THEN ""
  ELSE IF Ch(s, i) = ":" THEN SubSeq(s, 1, i - 1)
  ELSE SchemeFrom(s, i + 1)
SafeUrl(s) == LET x == SchemeFrom(s, 1) IN x = "" \/ x \in SafeUrlSchemes

\* A sanitizer which has been adjusted: v - the adjustment ("": none)
\*   rel     - every link gets this rel
\*   generic - classes, identifiers and styles are kept
\*   rm      - some tags are not safe any more
\*   deny    - no relative URLs
\*   base    - relative URLs become absolute
Allowed(v) == IF v = "rm" THEN SafeTags \ {"p", "strong", "a", "img", "table"} ELSE SafeTags
Relative(s) == SchemeFrom(s, 1) = ""
\* the relative URLs of the models are paths and fragments
Absolute(s) == IF Ch(s, 1) = "/" THEN "http://base.org" \o s ELSE "http://base.org/dir/" \o s
SafeAttsOf(v, n, a) ==
  LET keep == {k \in DOMAIN a :
                /\ k \in SafeAtts(n) \cup (IF v = "generic" THEN {"class", "id", "style"} ELSE {})
                /\ IF k \in UrlAtts(n) THEN SafeUrl(a[k]) /\ (IF v = "deny" THEN ~Relative(a[k]) ELSE TRUE) ELSE TRUE}
      kept == [k \in keep |-> IF v = "base" /\ k \in UrlAtts(n) /\ Relative(a[k]) THEN Absolute(a[k]) ELSE a[k]]
  IN IF v = "rel" /\ n = "a" THEN kept @@ ("rel" :> "noopener") ELSE kept

RECURSIVE SanitizeFrom(_, _, _, _, _)
\* stk - the open elements, "+" for those which keep their tags; a row of a
\* table belongs to a section, which is added where there is none;
\* off - how many elements being dropped with their content are open
SanitizeFrom(v, toks, i, stk, off) ==
  IF i > Len(toks) THEN << >>
  ELSE LET t == toks[i]
           top == IF stk = << >> THEN "" ELSE stk[Len(stk)]
           pop == SubSeq(stk, 1, Len(stk) - 1)
       IN IF off > 0
          THEN SanitizeFrom(v, toks, i + 1, stk,
                            IF t[1] = "o" /\ t[2] \in Dropped THEN off + 1 ELSE IF t[1] = "c" /\ t[2] \in Dropped THEN off - 1 ELSE off)
          ELSE CASE t[1] = "t" -> <<t>> \o SanitizeFrom(v, toks, i + 1, stk, 0)
            [] t[1] = "m" -> SanitizeFrom(v, toks, i + 1, stk, 0)
            [] t[1] = "v" -> (IF t[2] \in Allowed(v) THEN << <<"v", t[2], SafeAttsOf(v, t[2], t[3])>> >> ELSE << >>)
                             \o SanitizeFrom(v, toks, i + 1, stk, 0)
            [] t[1] = "o" /\ t[2] \in Dropped -> SanitizeFrom(v, toks, i + 1, stk, 1)
            [] t[1] = "o" /\ t[2] = "tr" /\ top = "table" ->
                 O("tbody", NoA) \o SanitizeFrom(v, toks, i, Append(stk, "tbody"), 0)
            [] t[1] = "o" /\ t[2] # "tr" /\ top = "tbody" /\ t[2] \in {"thead", "tfoot", "tbody"} ->
                 C("tbody") \o SanitizeFrom(v, toks, i, pop, 0)
            [] t[1] = "o" -> (IF t[2] \in Allowed(v) THEN O(t[2], SafeAttsOf(v, t[2], t[3])) ELSE << >>)
                             \o SanitizeFrom(v, toks, i + 1, Append(stk, t[2]), 0)
            \* the end of a table closes the section which was added
            [] t[1] = "c" /\ top # t[2] -> C(top) \o SanitizeFrom(v, toks, i, pop, 0)
            [] t[1] = "c" -> (IF t[2] \in Allowed(v) THEN C(t[2]) ELSE << >>) \o SanitizeFrom(v, toks, i + 1, pop, 0)
Sanitized(v, toks) == SanitizeFrom(v, toks, 1, << >>, 0)
=============================================================================
