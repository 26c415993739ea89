import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for k,v in e['coverage']['subchecks'].items(): print(k,v['evaluations'],v['nontrivial'],v['cpu_s'],v['distribution'])
print(e['wall_s'], e['coverage']['out_of_domain'])
