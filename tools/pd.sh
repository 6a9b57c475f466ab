#!/bin/sh
# pd.sh HARNESS FUNC PARAMS BUDGET: one symbolic job in the foreground, raw result
cd /tmp && timeout ${5:-200} /opt/veriftools/pyvenv/bin/python -B -X faulthandler /verif/py/sxrun.py /verif/py/$1 $2 "${3:-{\}}" ${4:-60} 5000 /tmp/pd.json && python3 -c "
import json;r=json.load(open('/tmp/pd.json'))
for k,v in r.items():
  if k not in('samples','functions','labels'): print(k, str(v)[:1500])"
