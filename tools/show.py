import json,sys
d=json.load(open(sys.argv[1]))
print(d.get('mode'), str(d.get('why'))[:3000]); print(d.get('vhdl','').split('end package body;')[-1])
if 'case' in d and 'log' in d['case']:
  for i,l in enumerate(d['case']['log']): print(i+1,l)
