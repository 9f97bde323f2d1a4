"""loops rewritten: counted down, while, pre-increment tests, counts taken out"""
import re
M = []
D = "/repo/src/"
FILES = ["bounds/BoundPair.cc", "bounds/PointLowerBound.cc", "bounds/PointUpperBound.cc", "bounds/RelaxUBInitializer.cc", "bounds/BoundPairCore.cc",
         "pomdpBounds/MaxPlanesLowerBound.cc", "pomdpBounds/SawtoothUpperBound.cc", "pomdpBounds/BlindLBInitializer.cc", "pomdpBounds/FastInfUBInitializer.cc",
         "pomdpBounds/FullObsUBInitializer.cc", "search/FRTDP.cc", "search/HSVI.cc", "search/RTDPCore.cc", "search/LRTDP.cc", "search/HDP.cc",
         "mdps/CacheMDP.cc", "mdps/GenericDiscreteMDP.cc", "mdps/RaceTrack.cc", "parsers/FastParser.cc", "parsers/CassandraParser.cc", "parsers/CassandraModel.cc",
         "exec/PolicyEvaluator.cc", "search/StateLog.cc", "main/TestDriver.cc"]
FORMS = [("up", "for (int {v} = 0; {v} < static_cast<int>({n}); ++{v})"),
         ("ne", "for (int {v} = 0, {v}_end = static_cast<int>({n}); {v} != {v}_end; {v} += 1)"),
         ("pre", "for (int {v} = -1; ++{v} < static_cast<int>({n});)"),
         ("down", "for (int {v} = static_cast<int>({n}) - 1; {v} >= 0; {v}--)"),
         ("dec", "for (int {v} = static_cast<int>({n}); {v}-- > 0;)")]
ORDER = re.compile(r"printf|<<|push_back|exit|CM_VAL")   # the order of the iterations may matter
def body(s, i):
    d, j = 0, s.index("{", i)
    k = j
    while True:
        d += {"{": 1, "}": -1}.get(s[k], 0)
        k += 1
        if d == 0:
            return s[j:k]
for f in FILES:
    s = open(D + f).read()
    for i, m in enumerate(re.finditer(r"\bFOR\((\w+), ([^\n]*?)\) \{", s)):
        b = body(s, m.start())
        for name, form in FORMS:
            if name in ("down", "dec") and (ORDER.search(b) or "break" in b or "return" in b or re.search(r" [<>] ", b)):
                continue
            new = s[:m.start()] + form.format(v=m.group(1), n=m.group(2)) + s[m.end() - 2:]
            M.append(("q-loop-%s-%s-%d" % (name, f.split("/")[-1][:-3], i), "ALL", [(f, s, new)]))
