#!/bin/bash
# ext.sh areas
rm -rf /tmp/w/out; mkdir -p /tmp/w/out
/verif/.build/vext/debug/vext --src /repo/src --out /tmp/w/out --skip application,fn:run --areas $1 --contracts $(ls /verif/contracts/*.vc | paste -sd,) > /tmp/w/report.json || { cat /tmp/w/report.json; exit 1; }
python3 -c "
import json;r=json.load(open('/tmp/w/report.json'))
print('lost',r['lost']); print(r['rewrites'])"
