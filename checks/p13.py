"""P13: an absent value (null, failed lookup, position not found) is tested before it is used."""
import absence, build
from astq import where


def run(rep, tier):
    A, n = build.ast(list(build.GROUP_DIRS), drivers=build.instances())
    F = [f for f in A if f.get("body")]
    S = absence.Summaries(F)
    rounds = S.solve(8 if tier == "thorough" else 4)
    nf = uses = 0
    for mn in sorted(S.by):
        f = S.by[mn]
        a = absence.Absence(S, f)
        a.run({frozenset(): {}})
        nf += 1
        uses += a.uses
        for (l, msg), node in sorted(a.out.items(), key=lambda kv: kv[0]):
            rep.violation("%s:%s:%s" % (f["file"], f["n"], msg), where(f, node), msg)
    maybe = sum(1 for r in S.ret.values() if r & absence.N)
    rep.cover("translation units", n)
    rep.cover("functions", nf)
    rep.cover("uses of handles, pointers, cursors and positions", uses)
    rep.cover("functions whose result may be absent", maybe)
    rep.cover("functions that use an argument without testing it", len(S.req))
    rep.cover("functions that never return", len(S.noreturn) + len(S.fatal))
    rep.cover("summary rounds", rounds)
    rep.require("functions", nf, 2000)
    rep.require("uses of handles, pointers, cursors and positions", uses, 3000)
    rep.require("functions whose result may be absent", maybe, 40)
    return rep.finish("Presence of every pointer, owning handle, lookup cursor and search position (absent, present or unknown) computed by a path-sensitive "
                      "forward analysis with function summaries; a value that a path leaves possibly absent may not be dereferenced, used as a position "
                      "or passed to a function that dereferences its argument.")
