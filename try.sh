#!/bin/bash
# developer helper: run every scenario of a harness whose name matches a pattern
B=$(python3 "$(dirname "$0")"/run.py bin $1) || exit 2
for s in $($B --list | awk '{print $1}' | grep -E "${2:-.}"); do
 $B --scenario $s --workers 8 --time ${4:-60} --tier ${3:-quick} --out /tmp/o.json; echo "$s rc $?"
 python3 - <<'PY'
import json;j=json.load(open('/tmp/o.json'))
print('  ',{k:j[k] for k in('bound_completed','executions','points','distinct_outcomes','states_deduped','pruned','max_events','capped','wall_s','unconfirmed','known_hits','divergences')})
for k in('violation','unconfirmed_violation','known'):
  if k in j: print('  ',k.upper(),j[k]['message'][:500],'\n    LOG:', j[k]['log'][-600:], '\n    SCHED:', j[k]['schedule'][:300])
PY
done
