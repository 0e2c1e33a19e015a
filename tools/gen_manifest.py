#!/usr/bin/env python3
"""Write MANIFEST.json from the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the SSA form on sentences of opaque tokens, compared with a reference reading"
N_AI = ("Decides every text that differs from an analysed sentence only in names, literals and layout; larger nestings and longer lists than the stated bounds "
        "rest on the parser being a stack machine (each production is applied in the analysed sentences). Trusted: go/ssa, the analyser's models of the standard library, the reference grammar in ref.go.")
CLAIMED = {
 "C01": (AI, N_AI), "C02": (AI + ", parser stack slots prefilled with marks", N_AI), "C03": (AI, N_AI), "C04": (AI, N_AI), "C06": (AI, N_AI), "L04": (AI, N_AI + " Which characters and lexemes are rejected is decided on the sample lexemes here and for all characters in L05."),
 "C05": ("LALR automaton isomorphism between the compiled tables and the grammar file", "Complete for the tables and the token numbering: every state, action and goto is compared, so it holds for every text. Semantic actions are the subject of C01-C04 and C06, not of this check. Trusted: the vendored goyacc."),
}
NOT_YET = {}
exec(open(os.path.join(here, "tools", "claims.py")).read()) if os.path.exists(os.path.join(here, "tools", "claims.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NOT_YET.get(i, "not decided: the static check for this property is not built")})
m = {"version": 1, "setup_cmd": "cd analyzer && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o /dev/null . && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o /dev/null ./goyacc",
     "checks": checks, "not_applicable": na,
     "notes": "One analyser (analyzer/, Go, vendored x/tools) decides all properties from /repo's type-checked source and SSA form; no code of the repository is compiled into it or run. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
print(len(checks), "checks", len(na), "not applicable")
