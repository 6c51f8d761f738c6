"""Which models decide which property."""


class Run:
    def __init__(self, module, model, depth=1, sim=None, fold=True, inv=(), par=2, walk=40, init=None, nxt=None, workers=3,
                 timeout=600, salt=0, weight=1, consts=None, only=None):
        self.module, self.model, self.depth, self.sim, self.fold = module, model, depth, sim, fold
        self.inv = [] if inv is None else list(only) if only else ["InvWellNested"] + list(inv)
        self.par, self.walk, self.workers, self.timeout, self.salt, self.weight = par, walk, workers, timeout, salt, weight
        self.init = init or ("InitR" if sim else "Init")
        self.next = nxt or ("NextR" if sim else "Next")
        self.consts = consts or {}

    def label(self):
        return "%s/%s depth %d%s" % (self.module, self.model, self.depth, " random" if self.sim else "")


class Conform:
    """The real output must be the one the specification describes."""
    level = "model_checking"

    def __init__(self, quick, thorough=None, assumptions=()):
        self.quick, self.thorough = quick, thorough
        self.assumptions = list(assumptions)

    def decide(self, check, tier):
        check.conform(self.thorough if tier == "thorough" and self.thorough else self.quick)


class Histories(Conform):
    def decide(self, check, tier):
        check.histories(self.thorough if tier == "thorough" else self.quick)


class Sizes(Conform):
    def decide(self, check, tier):
        check.sizes(self.thorough if tier == "thorough" else self.quick)


class Observe(Conform):
    """Arbitrary texts, judged by spec/Monitor.tla; plus the documents the specification describes."""

    def __init__(self, rules, quick, thorough, conform=(), conform_thorough=(), assumptions=()):
        super().__init__(quick, thorough, assumptions)
        self.rules = rules
        self.cq, self.ct = list(conform), list(conform_thorough)

    def decide(self, check, tier):
        check.observe(self.thorough if tier == "thorough" else self.quick, self.rules)
        runs = self.ct if tier == "thorough" and self.ct else self.cq
        if runs:
            check.conform(runs)


def chaos(models, sim, mode="any", depth=25, par=3, **kw):
    return [Run("Chaos", m, depth, sim=sim, par=par, walk=100, inv=None, consts={"Mode": '"%s"' % mode}, **kw) for m in models.split()]


def chaos_all(models, depth, mode="any", **kw):
    return [Run("Chaos", m, depth, inv=None, consts={"Mode": '"%s"' % mode}, **kw) for m in models.split()]


def slots(models, mode="any", **kw):
    """Every payload in every slot."""
    return chaos_all(models, 1, mode, nxt="NextS", **kw)


def nested(models, sim, mode="any", **kw):
    """Payloads in slots within slots."""
    return chaos(models, sim, mode, depth=6, init="InitSR", nxt="NextSR", **kw)


def R(mod, models, depth=1, **kw):
    return [Run(mod, m, depth, **kw) for m in models.split()]


def deeper(runs, factor=20):
    """The thorough tier: longer random walks, in more processes."""
    import copy
    out = []
    for r in runs:
        r = copy.copy(r)
        r.timeout = 3000
        if r.sim:
            r.sim, r.par = r.sim * factor, 6
        out.append(r)
    return out


CHECKS = {}


def watch(pid, rules, quick, more=(), conform=(), conform_more=(), assumptions=()):
    CHECKS[pid] = Observe(rules.split(), quick, deeper(quick) + list(more), conform,
                          deeper(list(conform)) + list(conform_more), assumptions)


def claim(pid, quick, more=(), assumptions=()):
    CHECKS[pid] = Conform(quick, deeper(quick) + list(more), assumptions)


claim("C08", R("MC_Foot", "places places2 places3 defs lits", 1, inv=["InvFoot"]) + R("MC_Foot", "seq", 3, inv=["InvFoot"])
      + R("MC_Foot", "seq3", 4, inv=["InvFoot"]) + R("MC_Foot", "r", 6, sim=1500),
      R("MC_Foot", "refdef", 2, inv=["InvFoot"]) + R("MC_Foot", "seq", 4, inv=["InvFoot"]) + R("MC_Foot", "seq3", 6, inv=["InvFoot"]))
claim("C09", R("MC_Notes", "places places2 defs lists", 1, inv=["InvNotes"]) + R("MC_Notes", "lists2 names", 2, inv=["InvNotes"]) + R("MC_Notes", "seq", 3, inv=["InvNotes"])
      + R("MC_Notes", "seq4", 5, inv=["InvNotes"]) + R("MC_Notes", "many", 3, inv=["InvNotes"]) + R("MC_Notes", "r", 6, sim=1500),
      R("MC_Notes", "seq", 4, inv=["InvNotes"]) + R("MC_Notes", "seq4", 7, inv=["InvNotes"]))
claim("C10", R("MC_Lists", "shapes4 bodies defs defx defxx defx2 atts lits") + R("MC_Lists", "around starts", 3) + R("MC_Lists", "nums", 2) + R("MC_Lists", "r", 3, sim=2000),
      R("MC_Lists", "shapes5") + R("MC_Lists", "nums", 3))
claim("C11", R("MC_Tables", "grids sections sections3 heads cells listcells atts attsr lits") + R("MC_Tables", "around", 3) + R("MC_Tables", "r", 2, sim=2000))
claim("C12", R("MC_Blocks", "kinds cites lits") + R("MC_Blocks", "seq", 2) + R("MC_Blocks", "seq4", 3) + R("MC_Blocks", "r", 3, sim=2000),
      R("MC_Blocks", "seq4", 4))
claim("C13", R("MC_Attrs", "blocks blocksr three more lists bc fn tables spans") + R("MC_Tables", "atts attsr") + R("MC_Mix", "normal", 3, sim=1500, par=3))
claim("C14", R("MC_Spans", "single ctx edges sq lines nest2 nest3 nest5 lit cite") + R("MC_Spans", "deep", 2) + R("MC_Spans", "r", 2, sim=2000))
claim("C15", R("MC_Links", "full titles urls ctx ctxt sq inspan texts texts2 lines several self lits") + R("MC_Raw", "tight") + R("MC_Links", "r", 2, sim=2000))
claim("C16", R("MC_Links", "alias", 3) + R("MC_Links", "aldefs alhosts lits") + R("MC_Links", "ra", 5, sim=3000, nxt="NextA"), R("MC_Links", "alias", 4))
claim("C17", R("MC_Images", "full sq ts urls titles ctx inspan lits") + R("MC_Images", "r", 2, sim=2000))
claim("C18", R("MC_Code", "at lite rtags nttag tags nt blocks") + R("MC_Code", "seq gaps", 2) + R("MC_Code", "r", 3, sim=2000), R("MC_Code", "seq", 3))

claim("C19", R("MC_Raw", "comments refs hosts dividers mixedblocks", fold=False) + R("MC_Raw", "inline mixed tight blocks tags")
      + R("MC_Raw", "around dividers", 3, only=["InvMatched"]) + R("MC_Raw", "r", 4, sim=3000, only=["InvMatched"]),
      R("MC_Raw", "around dividers", 4, only=["InvMatched"]))
claim("C20", R("MC_Glyphs", "quotes qpunct signs caps plain more in tight brackets pairs hosts modes", fold=False) + R("MC_Glyphs", "r", 1, sim=3000, fold=False))
claim("C21", R("MC_Lines", "breaks around") + R("MC_Lines", "eols gaps", 2) + R("MC_Lines", "ext", 3) + R("MC_Lines", "mix", 4, sim=3000),
      R("MC_Lines", "ext", 4))

# ------------------------------------------------- arbitrary texts (trace validation)
watch("C01", "ends", chaos("all leaks textile html", 20000) + slots("slots") + nested("nested", 20000) + chaos_all("bits", 3) + chaos_all("chars", 3) + chaos_all("big", 10, nxt="NextBig"),
      chaos_all("big", 12, nxt="NextBig"))
watch("C02", "vocabulary", chaos("all html kinds", 20000, "restricted") + slots("slots", "restricted") + nested("nested", 20000, "restricted") + chaos_all("bits", 3, "restricted"), chaos_all("chars", 3, "restricted"))
watch("C03", "ownatts", chaos("all textile kinds", 20000, "restricted") + slots("slots", "restricted") + nested("nested", 20000, "restricted"),
      conform=R("MC_Attrs", "blocksr lists fn tables spans bc") + R("MC_Tables", "attsr sections") + R("MC_Notes", "defs lists") + R("MC_Images", "full") + R("MC_Links", "full")
      + R("MC_Mix", "restricted", 3, sim=1200, par=3))
watch("C04", "urls", chaos("evil textile", 20000) + slots("slotst") + nested("nestedt", 20000), conform=R("MC_Links", "urls"))
watch("C05", "vocabulary", chaos("textile", 20000) + chaos("all", 20000, "restricted") + slots("slotst") + nested("nestedt", 20000),
      conform=R("MC_Quote", "links images acronyms summaries blocks lists tables spans") + R("MC_Quote", "pairs", 2))
watch("C06", "placeholders", chaos("leaks forged textile", 20000) + slots("slots") + nested("nested", 30000), chaos_all("bits", 3))
watch("C28", "nesting", chaos("textile", 20000) + chaos("all kinds html", 20000, "restricted") + slots("slotst") + slots("slots", "restricted") + nested("nestedt", 20000), chaos_all("bits", 3, "restricted"))


def H(model, depth, sim=None, **kw):
    return [Run("History", model, depth, sim=sim, init="HInit", nxt="HNextR" if sim else "HNext", inv=["InvFunction"], **kw)]


_h = H("one", 3) + H("many", 8, sim=1000, par=3) + H("many", 16, sim=400, par=3, walk=50)
CHECKS["C07"] = Histories(_h, deeper(_h))


# ------------------------------------------------------------------- settings
def M(only, models="inline lists blocks html images", depth=1, **kw):
    return R("MC_Modes", models, depth, consts={"Only": '"%s"' % only}, **kw)


def X(models, sim=1500, **kw):
    return R("MC_Mix", models, 3, sim=sim, par=3, **kw)


watch("C22", "lite", chaos("textile", 20000) + chaos("all", 10000, "restricted"), conform=M("lite", "inline lists blocks") + M("any", "pairs", 2) + X("lite"))
watch("C23", "blocks images", chaos("textile", 20000) + chaos("all", 10000, "restricted"),
      conform=M("noblocks", "inline lists blocks images") + M("any", "pairs", 2) + X("noblocks noimages"))
watch("C24", "kind", chaos("textile", 20000) + chaos("all", 10000, "restricted"), conform=M("kind") + M("any", "pairs", 2) + X("xhtml normal"))
claim("C25", X("default all", 3000) + X("normal", 6000) + R("MC_Mix", "normal", 30, sim=150, par=4, walk=100))
watch("C26", "rel", chaos("textile evil", 20000) + chaos("all", 10000, "restricted"), conform=M("rel", "inline lists blocks images") + X("rel"))
watch("C27", "sanitized", chaos("dirty dirtier", 20000) + slots("slotss") + nested("nesteds", 20000), conform=M("sanitize", "inline lists blocks html images adjust") + M("any", "pairs", 2) + X("sanitize"))
watch("C29", "words", chaos("words wordsr", 30000, nxt="NextW") + chaos_all("wordpairs", 1, nxt="NextWA"))
_s = R("MC_Sizes", "one hosts inlink two")
CHECKS["C30"] = Sizes(_s, _s + R("MC_Sizes", "two", 2))
