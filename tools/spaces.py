import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p))
    print(p,d['wall_s'],d['coverage']['exhaustive'])
    for k,v in d['coverage']['spaces'].items():
        print('  %-22s'%k,{q:v[q] for q in ('paths','outside_space','oracle_comparisons','distinct_outcomes','deviation_bound','completed')})
