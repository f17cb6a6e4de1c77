import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
done=[l for l in open('/tmp/claimed').read().split()]
tech={
'C20':'generated command sessions against the real program, compared with an in-process model driven through the API',
'C21':'generated saves and loads with injected I/O faults (interposed write/read, size limits, full device)',
'C22':'generated operation cycles, invariant on allocated bytes and open descriptors',
'C26':'differential testing: generated histories against a fresh process',
}
default='property-based testing: generated inputs and histories against reference models, sanitizers, shrinking; coverage-guided fuzzing in the thorough tier'
note=json.load(open('/tmp/notes.json'))
m={"version":1,"setup_cmd":"python3 -c \"import json; json.load(open('harness/props.json'))\" && g++ --version >/dev/null","checks":[],"not_applicable":[],
"notes":"No hooks are needed in /repo; the guarded-instrumentation rule is unused. Every check builds /repo/src (C20: and /repo/cli) with its harness under /verif/build, keyed by content. PBT_CASES and PBT_BUDGET override the number of cases and the seconds of exploration; python3 run.py <id> --replay FILE replays a failure."}
for p in P:
    i=p['id']
    if i in done:
        m['checks'].append({"property":i,"quick_cmd":"python3 run.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 run.py %s"%i,"evidence_file":"evidence/%s.json"%i,
          "technique":tech.get(i,default),"level":"fault_enumeration" if i=='C21' else "exploration","level_note":note.get(i,note['default'])})
    else:
        m['not_applicable'].append({"property":i,"reason":"check under construction"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
