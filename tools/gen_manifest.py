#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
R=os.path.join(os.path.dirname(__file__),'..')
D=[json.loads(l) for l in open(f'{R}/properties.jsonl')]
G="property-based testing: "
T={'C05':"metamorphic (line-ending rewriting) over generated programs",'C09':"model-based operation sequences against an array model",'C10':"generated and mutated inputs, panic/hang oracle",
'C17':"token-stream/tree round trip over generated programs",'C18':"span invariants over generated programs, plus reference tree",'C19':"metamorphic (layout rewriting) over generated token sequences",
'C20':"mutated programs and enumerated short token sequences against a reference parser",'C21':"metamorphic (joining, bracketing, indenting) over generated programs",'C02':"tiling invariant over generated sources",'C08':"reference tokenizer and metamorphic trivia insertion over generated sources",
'C34':"model-based sequences of rule calls against a reference parser",'C26':"grammar-generated targets and mutations against a reference parser"}
LEX={'C01','C03','C04','C06','C07'}
cs=[]
for d in D:
    i=d['id']
    t=T.get(i, "generated sources against a reference tokenizer" if i in LEX else "grammar-generated and mutated programs against a reference parser")
    cs.append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}","technique":G+t,"level":"exploration",
      "level_note":"Random structured generation with shrinking and an explicit oracle; nothing outside the generated cases is excluded. Bounds and exclusions: DESIGN.md."})
json.dump({"version":1,"setup_cmd":"./run.sh --build","checks":cs,"not_applicable":[]},open(f'{R}/MANIFEST.json','w'),indent=1)
