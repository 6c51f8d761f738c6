------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* Trace validation: what the converter was seen to do with an arbitrary   *)
(* text must be a behaviour the specification allows.                      *)
(*                                                                         *)
(* The observations (File, one JSON record per line) are the events of the *)
(* conversions: how a conversion ended, the tokens it produced, and the    *)
(* nesting of the tags of a result.  An observation which no rule of the   *)
(* property forbids is accepted; the others are reported with the rule.    *)
(*                                                                         *)
(*   [k |-> "end", r |-> "ok" | "panic" | "hang" | "crash"]                *)
(*   [k |-> "tag", c |-> settings, n |-> name, a |-> <<<<name, value>>..>>]*)
(*   [k |-> "txt", c |-> settings, s |-> text]                             *)
(*   [k |-> "lex", c |-> settings, w |-> what]  (comment, stray "<", ...)  *)
(*   [k |-> "nest", c |-> settings, s |-> <<"+b", "-b", ...>>]             *)
(*   [k |-> "words", w |-> .., t |-> .., a |-> ..]   see RuleWords         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Rules

Obs == ndJsonDeserialize(IOEnv.OBS)

San == INSTANCE Sanitize

VARIABLES i, done
vars == <<i, done>>

Ch(s, j) == SubSeq(s, j, j)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E j \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, j, j + Len(p) - 1) = p

\* ------------------------------------------------------------ the vocabulary
Void == {"br", "img", "col"}
CoreAtts == {"class", "id", "style", "lang"}
\* The elements Textile has, with the attributes it gives to them
Vocabulary ==
  [x \in {"p", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "code",
          "dl", "dt", "dd", "ul", "li", "caption", "thead", "tbody", "tfoot", "tr"} |-> CoreAtts]

  @@ [x \in {"sup", "sub", "strong", "b", "em", "i", "del", "ins", "span", "cite"} |-> CoreAtts \cup {"cite"}]
  @@ [x \in {"br"} |-> {}]
  @@ [x \in {"blockquote"} |-> CoreAtts \cup {"cite"}]
  @@ [x \in {"a"} |-> CoreAtts \cup {"href", "title", "rel"}]
  @@ [x \in {"img"} |-> CoreAtts \cup {"src", "alt", "title", "align", "width", "height"}]
  @@ [x \in {"abbr", "acronym"} |-> {"title"}]
  @@ [x \in {"ol"} |-> CoreAtts \cup {"start"}]
  @@ [x \in {"table"} |-> CoreAtts \cup {"summary"}]
  @@ [x \in {"td", "th"} |-> CoreAtts \cup {"colspan", "rowspan"}]
  @@ [x \in {"colgroup", "col"} |-> CoreAtts \cup {"span", "width"}]

RuleVocabulary(o) ==
  CASE o.k = "lex" -> FALSE
    [] o.k = "tag" -> /\ o.n \in DOMAIN Vocabulary
                      /\ \A j \in 1..Len(o.a) : o.a[j][1] \in Vocabulary[o.n]
                      /\ \A j, k \in 1..Len(o.a) : o.a[j][1] = o.a[k][1] => j = k
    [] OTHER -> TRUE

\* -------------------------------------------- classes, ids, styles (restricted)
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNum(s) == s # "" /\ \A j \in 1..Len(s) : IsDigit(Ch(s, j))
GeneratedId(c, s) ==
  \E p \in {"fn", "fnrev", "note", "noteref"} :
    LET q == p \o c.uid \o "-" IN StartsWith(s, q) /\ IsNum(SubSeq(s, Len(q) + 1, Len(s)))

RECURSIVE Pieces(_, _, _)
\* the parts of s, separated by sep, without the spaces around them
Trim(s) ==
  LET RECURSIVE L(_), R(_)
      L(x) == IF x # "" /\ Ch(x, 1) = " " THEN L(SubSeq(x, 2, Len(x))) ELSE x
      R(x) == IF x # "" /\ Ch(x, Len(x)) = " " THEN R(SubSeq(x, 1, Len(x) - 1)) ELSE x
  IN R(L(s))
Pieces(s, sep, j) ==
  IF j > Len(s) THEN {Trim(s)}
  ELSE IF Ch(s, j) = sep THEN {Trim(SubSeq(s, 1, j - 1))} \cup Pieces(SubSeq(s, j + 1, Len(s)), sep, 1)
  ELSE Pieces(s, sep, j + 1)
Parts(s, sep) == Pieces(s, sep, 1) \ {""}

Padding(d) ==
  \E p \in {"padding-left:", "padding-right:"} :
    /\ StartsWith(d, p) /\ Len(d) > Len(p) + 2
    /\ SubSeq(d, Len(d) - 1, Len(d)) = "em" /\ IsNum(SubSeq(d, Len(p) + 1, Len(d) - 2))
OwnStyle(d) ==
  d \in {"text-align:left", "text-align:right", "text-align:center", "text-align:justify",
         "vertical-align:top", "vertical-align:middle", "vertical-align:bottom"} \/ Padding(d)
OwnClass(n, s) ==
  CASE n \in {"p", "sup"} -> s = "footnote"
    [] n = "span" -> s = "caps"
    [] n = "img" -> s \in {"align-left", "align-right", "align-center"}
    \* a language
    [] n = "code" -> \A j \in 1..Len(s) : Ch(s, j) \notin {" ", "\"", "<", ">"}
    [] OTHER -> FALSE
RuleOwnAtts(o) ==
  (o.k = "tag" /\ o.c.restricted) =>
    \A j \in 1..Len(o.a) :
      LET k == o.a[j][1]  v == o.a[j][2]
      IN CASE k = "id" -> GeneratedId(o.c, v)
           [] k = "class" -> OwnClass(o.n, v)
           [] k = "style" -> \A d \in Parts(v, ";") : OwnStyle(d)
           [] OTHER -> TRUE

\* ----------------------------------------------------------------------- URLs
SafeSchemes == {"http", "https", "ftp", "mailto"}
OpenSchemes == SafeSchemes \cup {"file", "tel", "callto", "sftp", "data"}
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerC == "abcdefghijklmnopqrstuvwxyz"
Low(c) == IF \E j \in 1..26 : Ch(Upper, j) = c THEN Ch(LowerC, CHOOSE j \in 1..26 : Ch(Upper, j) = c) ELSE c
RECURSIVE SchemeOf(_, _, _)
\* The scheme of a URL as a browser sees it: leading spaces and all the tabs
\* and line ends are ignored; "" for a relative URL.
SchemeOf(s, j, acc) ==
  IF j > Len(s) THEN ""
  ELSE LET c == Ch(s, j)
       IN IF c = ":" THEN acc
          ELSE IF c \in {"/", "?", "#", "\\"} THEN ""
          ELSE IF c \in {"\t", "\n", "\r"} \/ (acc = "" /\ c \in {" ", "\f"}) THEN SchemeOf(s, j + 1, acc)
          ELSE SchemeOf(s, j + 1, acc \o Low(c))
SchemeChars == {Ch(LowerC, j) : j \in 1..26} \cup {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "-", "."}
IsScheme(x) == /\ x # "" /\ \E k \in 1..26 : Ch(LowerC, k) = Ch(x, 1)
               /\ \A j \in 1..Len(x) : Ch(x, j) \in SchemeChars
\* "a b:c" or "5:c" is a relative URL
Scheme(s) == LET x == SchemeOf(s, 1, "") IN IF IsScheme(x) THEN x ELSE ""
UrlAllowed(c, s) ==
  LET x == Scheme(s) IN x = "" \/ x \in (IF c.restricted THEN SafeSchemes ELSE OpenSchemes)
RuleUrls(o) ==
  o.k = "tag" =>
    \A j \in 1..Len(o.a) : o.a[j][1] \in {"href", "src", "cite"} => UrlAllowed(o.c, o.a[j][2])

\* --------------------------------------------------------------- placeholders
NoPlaceholder(c, s) ==
  /\ ~Contains(s, "textileRef:" \o c.uid \o ":")
  /\ c.forged \/ \A p \in {"textileRef", "linkStartMarker", ":shelve", ":ospan", ":cspan", ":glyph:"} : ~Contains(s, p)
RulePlaceholders(o) ==
  CASE o.k = "txt" -> NoPlaceholder(o.c, o.s)
    [] o.k = "tag" -> \A j \in 1..Len(o.a) : NoPlaceholder(o.c, o.a[j][1]) /\ NoPlaceholder(o.c, o.a[j][2])
    [] OTHER -> TRUE

\* -------------------------------------------------------------------- nesting
RECURSIVE Nested(_, _, _)
Nested(s, j, stk) ==
  IF j > Len(s) THEN stk = << >>
  ELSE IF Ch(s[j], 1) = "+" THEN Nested(s, j + 1, Append(stk, SubSeq(s[j], 2, Len(s[j]))))
  ELSE /\ stk # << >> /\ stk[Len(stk)] = SubSeq(s[j], 2, Len(s[j]))
       /\ Nested(s, j + 1, SubSeq(stk, 1, Len(stk) - 1))
RuleNesting(o) == o.k = "nest" => Nested(o.s, 1, << >>)

\* -------------------------------------------- what the settings switch on and off
\* (texts without HTML of the author, or restricted mode)
Phrases == {"strong", "b", "em", "i", "cite", "del", "ins", "sup", "sub", "span", "abbr", "acronym"}
\* lists of notes are lists even in lite mode
LiteTags == Phrases \cup {"p", "blockquote", "pre", "code", "a", "img", "br", "ol", "li"}
RuleLite(o) == (o.k = "tag" /\ o.c.lite /\ o.c.block_tags) => o.n \in LiteTags
RuleBlocks(o) == (o.k = "tag" /\ ~o.c.block_tags) => o.n \in Phrases
RuleImages(o) == (o.k = "tag" /\ ~o.c.images) => o.n # "img"
AttSet(o) == {o.a[j][1] : j \in 1..Len(o.a)}
AttOf(o, k) == o.a[CHOOSE j \in 1..Len(o.a) : o.a[j][1] = k][2]
RuleKind(o) ==
  o.k = "tag" => CASE o.n = "abbr" -> o.c.html = "html5"
                   [] o.n = "acronym" -> o.c.html = "xhtml"
                   [] o.n = "br" -> ("/" \in AttSet(o)) = (o.c.html = "xhtml")
                   [] o.n = "img" -> "align" \in AttSet(o) => ~(o.c.align_class = "on" \/ (o.c.align_class = "unset" /\ o.c.html = "html5"))
                   [] OTHER -> TRUE
\* a link within the page may be one between a note and its text
RuleRel(o) ==
  (o.k = "tag" /\ ~o.c.sanitize) =>
    IF o.n # "a" \/ o.c.rel = "" THEN "rel" \notin AttSet(o)
    ELSE IF "rel" \in AttSet(o) THEN AttOf(o, "rel") = o.c.rel
    ELSE StartsWith(AttOf(o, "href"), "#")
RuleSanitized(o) ==
  o.c.sanitize => CASE o.k = "lex" -> FALSE
                    [] o.k = "tag" -> /\ o.n \in San!SafeTags
                                      /\ \A j \in 1..Len(o.a) :
                                           /\ o.a[j][1] \in San!SafeAtts(o.n)
                                           /\ o.a[j][1] \in San!UrlAtts(o.n) => (Scheme(o.a[j][2]) = "" \/ Scheme(o.a[j][2]) \in San!SafeUrlSchemes)
                    [] o.k = "nest" -> Nested(o.s, 1, << >>)
                    [] OTHER -> TRUE

\* ---------------------------------------------------------------------- words
\* w - the words of the source, t - those of the text, a - those of the
\* addresses and titles of the result; all of them as numbers
RuleWords(o) ==
  o.k = "words" => /\ \A j \in 1..Len(o.w) : (\E k \in 1..Len(o.t) : o.t[k] = o.w[j]) \/ (\E k \in 1..Len(o.a) : o.a[k] = o.w[j])
                   /\ \A j \in 1..(Len(o.t) - 1) : o.t[j] < o.t[j + 1]

RuleEnds(o) == o.k = "end" => o.r = "ok"

Broken(o) == {r \in Rules :
  ~ CASE r = "ends" -> RuleEnds(o)
      [] r = "vocabulary" -> RuleVocabulary(o)
      [] r = "ownatts" -> RuleOwnAtts(o)
      [] r = "urls" -> RuleUrls(o)
      [] r = "placeholders" -> RulePlaceholders(o)
      [] r = "nesting" -> RuleNesting(o)
      [] r = "lite" -> RuleLite(o)
      [] r = "blocks" -> RuleBlocks(o)
      [] r = "images" -> RuleImages(o)
      [] r = "kind" -> RuleKind(o)
      [] r = "rel" -> RuleRel(o)
      [] r = "words" -> RuleWords(o)
      [] r = "sanitized" -> RuleSanitized(o)}

Init == i \in 1..Len(Obs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED i
        /\ LET b == Broken(Obs[i])
           IN b = {} \/ PrintT("@@" \o ToJson([i |-> i, r |-> b]))
=============================================================================
