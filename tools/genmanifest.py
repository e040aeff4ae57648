#!/usr/bin/env python3
"""Writes MANIFEST.json from what the analyser implements."""
import json,os,subprocess
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={
 'C27':"liveness under fair schedules and a bound on waiting time quantify over runtime scheduling, which no static argument over the source can bound (the spin loops count tries, not time)",
 'C28':"that the bin merge sort leaves a sorted stable permutation needs an invariant over an array of rings in the heap (bin i holds 0 or 2^i sorted nodes, all older than those of lower bins), quantified both over the bins and over the nodes of each; no abstract domain built here carries it, and a check of the merge step alone would wear the wrong label (splicing, which the sort uses, is decided in C05 and C06)",
}
rows=[l.split('\t') for l in subprocess.check_output([here+'/bin/gxcheck','-list'],text=True).splitlines()]
done={r[0]:r for r in rows}
checks=[];na=[]
for l in open(here+'/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if i in done:
        assert done[i][1],i
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
          technique='static analysis: '+done[i][1],level='other',
          level_note='Sound over-approximation of all inputs and paths of the analysed functions: '+done[i][2]+'. Anything undecided is reported as a violation. Trusts go/ssa, the models of the standard library calls, and the analyser itself; partial correctness (a call that returns).'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'not built')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='All checks are one static analyser (gxcheck) over the current source of /repo; nothing of /repo is executed. known_findings.txt lists the repaired defects.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1);open(here+'/MANIFEST.json','a').write('\n')
