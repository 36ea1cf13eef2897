# all_checks.sh [PID...]: every check on /repo; prints those that fail or leave a part undecided
cd "$(dirname "$0")/.."
for p in ${@:-$(ls checks | grep -o '^p[0-9][0-9]' | tr p P)}; do
 s=$(date +%s); timeout 900 python3-vt engine/check.py $p > /tmp/all_$p.txt 2>&1; rc=$?
 python3 - $p $rc $(( $(date +%s)-s )) <<'P'
import json,sys
p,rc,t=sys.argv[1:]
e=json.load(open("evidence/%s.json"%p)); c=e["coverage"]
print(p,"rc",rc,t+"s","obligations",c["obligations"],"" if rc=="0" and not c["inconclusive"] and (c["obligations"]==c["discharged"] or "KNOWN-FINDING" in open("/tmp/all_%s.txt"%p).read()) else "<<<<<< ATTENTION")
P
done
