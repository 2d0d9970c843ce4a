import json,glob,sys
for f in glob.glob('/verif/replays/%s-*.json'%sys.argv[1]):
    j=json.load(open(f)); print(f, j['note'], len(j['ops'])); print('  prev op', json.dumps(j['ops'][-2])[:700] if len(j['ops'])>1 else ''); print('  op', json.dumps(j['ops'][-1])[:1500]); print('  exp', json.dumps(j['expected'])[:1500]); print('  got', json.dumps(j['observed'])[:1500])
