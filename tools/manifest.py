import json,sys
# property -> (technique, note)
T={}
exec(open('/verif/tools/techniques.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    if p in T:
        tech,note=T[p]
        checks.append({"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","technique":tech,"level":"exploration","level_note":note})
    else:
        na.append({"property":p,"reason":NA.get(p,"no check built yet; runtime monitoring applies and a check is planned")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
"notes":"Runtime monitoring: the harness crate in /verif/harness links the crates of /repo's working tree, runs them under generated workloads with monitors and reference models, and each check rebuilds it first. No hooks in /repo are used; the commits added there are repairs (fix:)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
