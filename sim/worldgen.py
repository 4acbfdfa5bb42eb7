"""Which simulated worlds exist, and how they are spread over translation units.

A world is one combination of container kind, interval type, codomain and traits.  The quick tier uses a covering
selection (every container kind with every interval type, every codomain with every admissible traits and style); the
thorough tier uses the full product.
"""
DOMAINS = ["dyn", "u", "cdyn", "ro", "lo", "cl", "op", "cro", "clo", "gro", "gt"]
EDGES = ["hi", "clhi", "low", "zero", "own", "ownc"]  # limits of number types, user defined interval classes
LARGE = ["big", "bigro"]
MORE = ["date", "days", "span", "time", "rat", "str"]  # domains of other libraries
STYLES = {"sets": ["ST_JOIN", "ST_SEP", "ST_SPLIT"], "maps": ["ST_JOIN", "ST_SPLIT"]}
TRAITS = ["partial_absorber", "partial_enricher", "total_absorber", "total_enricher"]
CODOMAINS = ["K_led", "K_int", "K_max", "K_set", "K_min", "K_bits", "K_xor", "K_iset", "K_own", "K_first", "K_star", "K_word"]
NUMBERS = ["K_short", "K_long", "K_llong", "K_float", "K_dbl", "K_ldbl"]


def admissible(cod, tr):
    # a total map over an extremal or bit combiner is outside the library's own concept tables
    if cod == "K_star" and tr != "partial_absorber":
        return False  # otherwise values of zero are divided by
    return not (tr.startswith("total") and cod in ("K_max", "K_min", "K_bits", "K_xor", "K_own", "K_first", "K_word"))


def tu(header, worlds):
    out = ['#include "%s"' % header, "using namespace sim;"]
    if any("D_%s" % d in w.replace(">", ",").replace(" ", "").split(",")[0] for w in worlds for d in MORE):
        # the adapters have to precede the rest of the library
        out = ["#include <boost/icl/gregorian.hpp>", "#include <boost/icl/ptime.hpp>", "#include <boost/icl/rational.hpp>", out[0], '#include "domains_more.hpp"', out[1]]
    for i, w in enumerate(worlds):
        out.append("static %s w%d; static Register r%d(&w%d);" % (w, i, i, i))
    return "\n".join(out) + "\n"


def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def sets(tier):
    return {"set_" + d: tu("sets.hpp", ["SetWorld<D_%s, %s>" % (d, s) for s in STYLES["sets"]]) for d in DOMAINS + EDGES + LARGE + MORE}


def map_combos():
    return [(k, t, s) for k in CODOMAINS for t in TRAITS for s in STYLES["maps"] if admissible(k, t)]


def maps(tier):
    worlds = []
    if tier == "thorough":
        worlds = [(d, k, t, s) for d in DOMAINS for (k, t, s) in map_combos()]
        worlds += [(d, k, t, s) for i, d in enumerate(EDGES + MORE) for j, (k, t, s) in enumerate(map_combos()) if k == "K_led" or (i + j) % 4 == 0]
    else:
        for i, (k, t, s) in enumerate(map_combos()):
            worlds.append((DOMAINS[(i * 4 + i // 8) % len(DOMAINS)], k, t, s))
        for i, d in enumerate(DOMAINS):  # every interval type with failing values, in both styles
            for j, s in enumerate(STYLES["maps"]):
                w = (d, "K_led", TRAITS[(i + j) % 4], s)
                if w not in worlds:
                    worlds.append(w)
        for i, d in enumerate(EDGES):
            worlds.append((d, "K_led", TRAITS[(i * 3 + 1) % 4], STYLES["maps"][(i + i // 2) % 2]))
            worlds.append((d, "K_int", TRAITS[(i + 2) % 4], STYLES["maps"][(i + i // 2 + 1) % 2]))
        for i, d in enumerate(MORE):
            worlds.append((d, "K_led", TRAITS[i % 4], STYLES["maps"][i % 2]))
            worlds.append((d, ["K_int", "K_set"][i % 2], TRAITS[(i + 1) % 4], STYLES["maps"][(i + 1) % 2]))
    for i, (d, k, t) in enumerate([("big", "K_led", "partial_absorber"), ("big", "K_int", "total_enricher"), ("bigro", "K_word", "partial_enricher"), ("bigro", "K_led", "total_absorber")]):
        worlds.append((d, k, t, STYLES["maps"][i % 2]))
    for i, k in enumerate(NUMBERS):  # what is not there is subtracted from in every number type
        worlds.append((DOMAINS[(i * 2) % len(DOMAINS)], k, TRAITS[2 + i % 2], STYLES["maps"][i // 2 % 2]))
    worlds.sort()
    res = {}
    for d in DOMAINS + EDGES + LARGE + MORE:
        for n, c in enumerate(chunk([w for w in worlds if w[0] == d], 4)):
            res["map_%s_%d" % (d, n)] = tu("maps.hpp", ["MapWorld<D_%s, %s, %s, icl::%s>" % (d, s, k, t) for (d, k, t, s) in c])
    return res


def elems(tier):
    ds = ["dyn", "gt", "cdyn", "u"] + (["date", "time", "rat"] if tier == "thorough" else ["date", "rat"])
    combos = [(k, t) for k in CODOMAINS for t in TRAITS if admissible(k, t)]
    if tier == "thorough":
        ws = [(d, k, t) for d in ds for (k, t) in combos]
    else:
        ws = [(ds[i % len(ds)], k, t) for i, (k, t) in enumerate(combos)] + [("dyn", "K_led", t) for t in TRAITS[1:]] + [("dyn", "K_int", "partial_enricher")]
    ws += [("big", "K_led", "partial_absorber"), ("big", "K_int", "total_enricher")]
    ws += [(["dyn", "gt"][i % 2], k, TRAITS[2 + (i + 1) % 2]) for i, k in enumerate(NUMBERS)]
    ws = sorted(set(ws))
    res = {"eset_%d" % n: tu("elems.hpp", ["ESetWorld<D_%s>" % d for d in c]) for n, c in enumerate([ds[:4], ds[4:] + ["big"]])}
    for d in ds + ["big"]:
        for n, c in enumerate(chunk([w for w in ws if w[0] == d], 6)):
            res["emap_%s_%d" % (d, n)] = tu("elems.hpp", ["EMapWorld<D_%s, %s, icl::%s>" % w for w in c])
    return res


def th_worlds():
    st = {"set": "SetSys<D_%s, ST_JOIN>", "sep": "SetSys<D_%s, ST_SEP>", "spl": "SetSys<D_%s, ST_SPLIT>"}
    ws = [("interval_set/int.dyn", st["set"] % "dyn"), ("split_interval_set/int.rightopen", st["spl"] % "ro"), ("separate_interval_set/double.dyn", st["sep"] % "cdyn"),
          ("interval_set/int.greater.dyn", st["set"] % "gt"), ("separate_interval_set/long.leftopen", st["sep"] % "lo")]
    for d, s, k, t in [("dyn", "ST_JOIN", "K_led", "partial_absorber"), ("ro", "ST_SPLIT", "K_led", "total_absorber"), ("cdyn", "ST_JOIN", "K_int", "total_enricher"),
                       ("u", "ST_SPLIT", "K_set", "partial_enricher"), ("cl", "ST_JOIN", "K_set", "partial_absorber"), ("dyn", "ST_SPLIT", "K_max", "partial_absorber"),
                       ("op", "ST_JOIN", "K_led", "partial_enricher"), ("clo", "ST_JOIN", "K_int", "partial_absorber"), ("gro", "ST_JOIN", "K_bits", "partial_absorber")]:
        ws.append(("%s/%s/%s/%s" % ("interval_map" if s == "ST_JOIN" else "split_interval_map", d, k[2:], t), "MapSys<D_%s, %s, %s, icl::%s>" % (d, s, k, t)))
    for d, k, t in [("dyn", "K_led", "partial_absorber"), ("cdyn", "K_set", "partial_enricher"), ("dyn", "K_led", "total_absorber"), ("gt", "K_int", "total_enricher")]:
        ws.append(("map/%s/%s/%s" % (d, k[2:], t), "EMapSys<D_%s, %s, icl::%s>" % (d, k, t)))
    ws.append(("set/int.dyn", "ESetSys<D_dyn>"))
    return ws


def threads(kind, decls, per):
    res = {}
    for n, c in enumerate(chunk(decls, per)):
        out = ['#include "threads.hpp"', "using namespace sim;"]
        for i, (name, typ) in enumerate(c):
            out.append('static %s w%d("%s"); static Register r%d(&w%d);' % (typ, i, name, i, i))
        res["%s_%d" % (kind, n)] = "\n".join(out) + "\n"
    return res


def readers(tier):
    return threads("read", [(n, "ReaderWorld<%s >" % t) for n, t in th_worlds()], 1)


def owners(tier):
    ws = th_worlds()
    return threads("own", [(ws[i][0] + " & " + ws[(i + 6) % len(ws)][0], "OwnerWorld<%s, %s >" % (ws[i][1], ws[(i + 6) % len(ws)][1])) for i in range(len(ws))], 1)


def work(tier):
    st = {"ST_JOIN": "j", "ST_SEP": "s", "ST_SPLIT": "l"}
    res = {"work_eset": ["WorkESet<D_dyn>", "WorkESet<D_gt>"]}
    sets_ = [("dyn", "ST_JOIN"), ("ro", "ST_SEP"), ("dyn", "ST_SPLIT"), ("cdyn", "ST_JOIN")] + ([("cl", "ST_JOIN"), ("gt", "ST_SPLIT"), ("cdyn", "ST_SEP"), ("ro", "ST_JOIN")] if tier == "thorough" else [])
    for d, s in sets_:
        res["work_set_%s_%s" % (d, st[s])] = ["WorkSet<D_%s, %s>" % (d, s)]
    maps_ = [("dyn", "ST_JOIN", "K_led", "partial_absorber"), ("ro", "ST_SPLIT", "K_led", "partial_enricher"), ("cl", "ST_JOIN", "K_int", "total_absorber"), ("dyn", "ST_SPLIT", "K_int", "total_enricher")]
    if tier == "thorough":
        maps_ += [("gt", "ST_JOIN", "K_int", "partial_enricher"), ("cdyn", "ST_SPLIT", "K_led", "partial_absorber"), ("dyn", "ST_JOIN", "K_led", "total_enricher"), ("ro", "ST_SPLIT", "K_int", "total_absorber")]
    for d, s, k, t in maps_:
        res["work_map_%s_%s_%s" % (d, st[s], t)] = ["WorkMap<D_%s, %s, %s, icl::%s>" % (d, s, k, t)]
    for d, k, t in [("dyn", "K_led", "partial_absorber"), ("gt", "K_int", "total_enricher")]:
        res["work_emap_" + d] = ["WorkEMap<D_%s, %s, icl::%s>" % (d, k, t)]
    return {n: tu("work.hpp", ["WorkWorld<%s >" % w for w in ws]) for n, ws in res.items()}


TSAN = ["-fsanitize=thread"]
FLAGS = {"readers": TSAN, "owners": TSAN, "work": ["-fsanitize-coverage=trace-pc", "-DNDEBUG", "-DBOOST_DISABLE_ASSERTS"]}  # instrumentation only; the entry points are fibers.cpp, not the sanitizer's runtime
_FIB = [("fibers", '#include "fibers.cpp"\n', ["-std=c++17", "-O1", "-w"])]
RUNTIME = {"readers": _FIB, "owners": _FIB, "work": [("work", '#include "work.cpp"\n', ["-std=c++17", "-O1", "-w"])]}
FAMILIES = {"readers": readers, "owners": owners, "sets": sets, "maps": maps, "elems": elems, "work": work}
