import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(__import__('sys').argv[1] if len(__import__('sys').argv)>1 else '/tmp/o.json'))
m=b-set(o['passed']); print('missing',len(m),sorted(m)[:10])
