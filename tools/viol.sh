#!/bin/sh
python3 -c "
import json,sys
for v in json.load(open('/verif/out/violation_$1.json'))['violations'][:${2:-3}]: print(v['key'],'|',v['clause'],'|',v['detail'])"
