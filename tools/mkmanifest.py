#!/usr/bin/env python3
# writes MANIFEST.json from the list of built checks
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built=open(os.path.join(here,'tools','built.txt')).read().split()
na={
'C20':'which pad is nearest to a point is a pure function of the layout and the point: there is no schedule, fault, clock or input/output for a simulator to decide (that the answer is stable, terminates and stays inside memory is part of C13)',
'C21':'containment, distance and intersection for ladders and petals are pure arithmetic of their arguments: nothing a simulator controls can influence them (their stability and restart survival are part of C05, C06 and C13)',
'C22':'coordinate transformation is pure arithmetic of the configured module (that it depends on the final configuration only is part of C10)',
'C23':'vector algebra and boundary tests are pure functions without any nondeterminism',
'C24':'needs ROOT/TGeo and the CGA (Mokka) volume model, which are not installed and not part of the build here; point and distance properties are also pure look-ups',
}
later={p:'not built yet' for p in ['C%02d'%i for i in range(1,14)] if p not in built}
tech={'C06':'deterministic simulation: seeded thread schedules over real code, happens-before race detection','C07':'deterministic simulation: seeded thread schedules with disk faults per session'}
notes={}
checks=[]
for p in built:
    checks.append(dict(property=p,quick_cmd=f'./check.sh {p}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {p}',evidence_file=f'evidence/{p}.json',
      technique=tech.get(p,'deterministic simulation with fault injection, seeded search'),level='exploration',
      level_note='seeded search over generated geometries, operation histories and injected faults against an executable reference; a clean run is evidence over the seeds explored, not proof'))
m=dict(version=1,setup_cmd='./build.sh st >/dev/null'+(' && ./build.sh mt >/dev/null' if 'C06' in built else ''),checks=checks,
  not_applicable=[dict(property=k,reason=v) for k,v in {**later,**na}.items()],
  notes='no hooks in /repo: all seams are link-time (stdio/POSIX calls, operator new, pthread, compiler instrumentation)')
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
