cd /verif
for d in "$@"; do d=/verif/seeded/$d; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); echo "$(basename $d): $(LINES_MAX=40 bash scripts/mut.sh $d/patch.diff $p | grep -E 'VIOLATION|INCOMP|MISM|exit' | cut -c1-100 | head -4| tr '\n' ' ')"; done
