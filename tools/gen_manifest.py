"""Writes /verif/MANIFEST.json: a check for every property with a module in mc/props."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXH = 'stateless explicit enumeration of the real implementation against an independent reference model'
T = {
 'C01': ('explicit-state exploration of call/reconfiguration/resume histories of the real classes, directory snapshots as states', 'Every history of the stated lengths over the stated alphabets is executed; longer histories are not.'),
 'C02': ('crash-point enumeration: real process killed (ptrace) at every mutating file operation and inside every write', 'All kill points of the listed runs, torn writes at chosen prefix lengths; process death, not power loss.'),
 'C03': ('exhaustive schedule enumeration of the real code under a controlled process pool and ray runtime', 'All task-to-worker assignments and completion orders for up to 4 tasks; configurations enumerated.'),
 'C04': ('exhaustive schedule enumeration of the real code under a controlled process pool, duplicate detection on every execution', 'All assignments and completion orders for up to 4 tasks; distinctness judged on continuous draws.'),
 'C16': ('systematic interleaving exploration of two real processes at every file operation (ptrace scheduler, preemption bound)', 'All schedules within the preemption bound for the listed programs.'),
 'C15': ('fault-point enumeration: an exception injected at every evaluation, runtime call and file operation of an integration', 'Every fault point of the listed integrations.'),
 'C24': ('explicit enumeration of file sets and of all orders of opening files on the real implementation, dask replaced by a controlled stand-in', 'Exhaustive within the bounds listed in the evidence; dask itself is not installed and is represented by a stand-in that opens files without chunks.'),
 'C14': ('enumeration of all call pairs and aliasing patterns on the real classes', 'All ordered pairs of calls over the stated alphabets and array layouts.'),
 'C17': ('explicit-state exploration of setter/metric histories against freshly built verifiers', 'All histories of the stated length over the stated alphabets.'),
}
D = {}
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if not os.path.exists(os.path.join(R, 'mc/props', p.lower() + '.py')):
        na.append(dict(property=p, reason=D.get(p, 'check under construction')))
        continue
    tech, note = T.get(p, (EXH, 'Exhaustive within the bounds listed in the evidence; inputs outside them are not covered.'))
    checks.append(dict(property=p, quick_cmd='bash run.sh %s --tier quick' % p, thorough_cmd='bash run.sh %s --tier thorough' % p,
                       technique='model checking: ' + tech, level='model_checking', level_note=note, evidence_file='evidence/%s.json' % p))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Checks import PyAnEn from /repo; see DESIGN.md.'), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
