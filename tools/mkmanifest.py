import json,os,subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
CLAIM=json.load(open(R+'/tools/claimed.json'))   # id -> {level, note}
hooks=[c for c in open(R+'/tools/hook_commits').read().split()]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIM and 'na' not in CLAIM[i]:
        c=CLAIM[i]
        checks.append({'property':i,'quick_cmd':f'./check.py {i}','thorough_cmd':f'./check.py {i} thorough','evidence_file':f'evidence/{i}.json',
          'technique':'contracts on the real functions, verification conditions generated from the current source and discharged by z3/cvc5; bounded replay only for failing inputs and for functions outside the verifier',
          'level':c.get('level','proof'),'level_note':c['note']})
    else: na.append({'property':i,'reason':CLAIM.get(i,{}).get('na','not built yet')})
json.dump({'version':1,'setup_cmd':'./setup.sh','hooks':{'guard':'cargo feature vp-hooks of egobox-doe, egobox-gp, egobox-moe, egobox-ego','enable':'the replay crate is built with --features hooks, which turns vp-hooks on in every crate','source_commits':hooks},
 'checks':checks,'not_applicable':na,'notes':'see DESIGN.md'},open(R+'/MANIFEST.json','w'),indent=1)
