import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T_P="explicit-state exploration: all words over a sharp alphabet up to a depth, reference lexer/push-down automaton stepped along each and its verdict and tree replayed against Parser::parse"
T={"C01":"exhaustive enumeration of texts (character words, token words, every Unicode scalar, every substring of rich scenes, repetition families on a fixed stack) on the real parser; any panic, abort or non-termination is a violation",
"C03":"exhaustive enumeration of layouts (separator choice per gap) of token sequences on the real parser, against the model's token automaton and against the LF/CRLF twin",
"C05":"exhaustive enumeration of layouts and position extents; every position in the returned tree compared with the model's character automaton",
"C10":"fault enumeration: every cut point of every scene over an item alphabet, replayed on the real parser; accepted prefixes are violations unless the model accepts them",
"C11":"exhaustive enumeration of call histories over a text alphabet and one or two threads, each in a fresh process, each result compared with that of a fresh process",
"C13":"exhaustive enumeration of erroneous texts; every position cited by the error message checked against the model's faulty directive and offending token"}
T_C="explicit enumeration of states (values) and transitions (calls of the real operations) over a value grid and operation sequences up to a depth, against exact reference arithmetic"
N="Exhaustive within the alphabets and depths listed in evidence/<id>.json (sizes and bounds per space), on the code rebuilt from /repo with overflow checks, in both float precisions; nothing is sampled. Beyond the bounds it is a small-scope argument. Trusts rustc, the reference model in /verif/%s/src and the Debug rendering used to observe results."
checks=[]
for p in props:
    i=p['id']; par=i<='C13'
    note=N%('pchk' if par else 'mchk')
    if i=='C01': note+=" Block nesting is explored to depth 256; deeper nesting overflows the stack (known finding, run apart)."
    checks.append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
      "evidence_file":"evidence/%s.json"%i,"technique":"model checking: "+T.get(i,T_P if par else T_C),"level":"model_checking","level_note":note})
h=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^hook:'],text=True).split()
m={"version":1,"setup_cmd":"python3 check.py --setup","hooks":{"guard":"cfg pbrtrs_verif (rustc --cfg)","enable":"check.py builds the harness crates pchk and mchk, which depend on /repo by path, with RUSTFLAGS='--cfg pbrtrs_verif'","source_commits":h},
 "checks":checks,"not_applicable":[],"notes":"Known findings and fixed defects: known_findings.txt. Replay a violation: python3 check.py <id> --replay <file>."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
