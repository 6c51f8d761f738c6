--------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* The state machine: a document grows block by block, the parser state    *)
(* and the HTML evolve with it.  Every reachable state is a document       *)
(* together with the HTML it must be converted to; `Emit` hands these      *)
(* pairs over to the conformance driver.                                   *)
(***************************************************************************)
EXTENDS Blocks, Sanitize, Json

VARIABLES cfg,   \* the settings of the converter
          doc,   \* the blocks written so far
          st,    \* the abstract parser state after them
          out    \* the HTML tokens produced so far
vars == <<cfg, doc, st, out>>

DocInit(Configs) == cfg \in Configs /\ doc = << >> /\ st = St0 /\ out = << >>

Write(b) ==
  /\ MayFollow(st, b)
  /\ LET r == RBlock(cfg, st, b)
     IN /\ doc' = Append(doc, b)
        /\ st' = r.st
        /\ out' = out \o r.o
        /\ UNCHANGED cfg

\* A step of a random walk: an unsuitable block is skipped.
WriteOrSkip(b) == IF MayFollow(st, b) THEN Write(b) ELSE UNCHANGED vars

\* XHTML spells line breaks "<br />"; the attribute "/" stands for that
SpellTok(c, t) == IF t[1] = "v" /\ t[2] = "br" /\ c.html = "xhtml" THEN <<"v", "br", A("/", "")>> ELSE t
Spelled(c, toks) == [i \in 1..Len(toks) |-> SpellTok(c, toks[i])]
Result(c, s, o) ==
  LET toks == Finish(c, s, o)
  IN Spelled(c, IF c.sanitize THEN Sanitized(IF Has(c, "adjust") THEN c.adjust ELSE "", toks) ELSE toks)
Html == Result(cfg, st, out)

\* Prints the current state for the conformance driver (once per state when
\* used as the first conjunct of the next-state relation).
Emit == doc = << >> \/ PrintT("@@" \o ToJson([c |-> cfg, s |-> DocSrc(doc), e |-> Html]))

\* The end of a random walk: only complete documents are handed over.
WalkEnd(n) == Len(doc) = n /\ Emit /\ FALSE

-----------------------------------------------------------------------------
(* Properties of the specification itself, checked by TLC.                 *)
InvWellNested == WellNested(Html)
InvUniqueIds == UniqueIds(Html)
InvVocabulary ==
  cfg.restricted =>
    TagNames(Html) \subseteq
      {"p", "br", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "code", "blockquote", "a", "img", "sup", "sub",
       "span", "strong", "b", "em", "i", "del", "ins", "cite", "abbr", "acronym", "ul", "ol", "li",
       "dl", "dt", "dd", "table", "caption", "colgroup", "col", "thead", "tbody", "tfoot", "tr", "td", "th"}
InvRel ==
  cfg.rel # "" =>
    \A i \in 1..Len(Html) :
      (Html[i][1] = "o" /\ Html[i][2] = "a" /\ ~StartsWith(Html[i][3]["href"], "#"))
        => Has(Html[i][3], "rel") /\ Html[i][3]["rel"] = cfg.rel
=============================================================================
