# seedchk.sh ID...: runs the property's check against a copy of the package with the planted bug
cd "$(dirname "$0")/.."
for id in "$@"; do
 pid=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
 d=$(mktemp -d /tmp/bc_XXXXXX); cp -r /repo/pterasoftware $d/; patch -s -d $d -p1 < seeded/$id/patch.diff
 s=$(date +%s); r=$(VERIF_EVIDENCE=$d/ev VERIF_REPO=$d python3-vt engine/check.py $pid 2>&1 | grep -v KNOWN | head -2 | cut -c1-200); echo "$id $pid $(( $(date +%s)-s ))s: $r"
 rm -rf "$d"
done
