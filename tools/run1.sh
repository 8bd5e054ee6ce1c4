#!/bin/bash
# run checks and summarise: tools/run1.sh ID...
cd /verif
for i in "$@"; do
  VERIF_DEBUG=1 bash ./check.sh check $i ${TIER:-quick} > /tmp/run_$i.log 2>&1; rc=$?
  echo "== $i rc=$rc $(grep -E 'VIOLATION|NOTE|KNOWN|^  H|replay ' /tmp/run_$i.log | head -${LINES_:-12})"
  python3 - $i <<'P'
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
c=e['coverage']
print('  wall',round(e['wall_s'],1),{k:c[k] for k in c if k in('traces_validated_against_impl','trace_mismatches')})
for h in c.get('harnesses',[]):
  print('  ',h['harness'] if 'harness' in h else h.get('name'),{k:h[k] for k in h if k in('paths_completed','paths_not_modelled','solver_queries','wall_s','all_paths_within_bounds_explored','notes','unknown','reachability_witnesses')})
for n in (c.get('notes') or [])[:6]: print('  note',n[:300])
P
done
