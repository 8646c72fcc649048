# usage: catch.sh ID...: run the property's quick check against the planted bug in /repo
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick ./check $p quick 2>&1); rc=$?
  e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$i rc=$rc $((e-s))s $(echo "$out" | grep VIOLATION | head -1)"
done
