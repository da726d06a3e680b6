import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for k,v in e['coverage']['facets'].items():
    print(k,v['cases'],v['distinct_nontrivial'],v['labels'])
