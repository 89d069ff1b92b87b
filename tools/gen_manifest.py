#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SCHED = ('Stateless model checking of the real code: pieshell and the commands it starts run in one controlled world in which every poll of the event loop, signal '
         'delivery and step of a command is a choice; all executions within a bound on departures from several base schedules are enumerated, plus all cases of the '
         'enumerated inputs. Assumes the bounds reported in the evidence, and that commands behave like the puppet program.')
SEQ = ('Exhaustive enumeration, within the stated bounds, of inputs/histories, each executed on the real code (real forks, files and commands) and compared with an '
       'independent reference model of the documented behaviour. Assumes the bounds reported in the evidence.')
CLAIMED = {
    'C01': ('controlled-scheduler exploration of the real code', 'model_checking', SCHED),
    'C02': ('controlled-scheduler exploration of the real code', 'model_checking', SCHED),
    'C03': ('controlled-scheduler exploration of the real code', 'model_checking', SCHED),
    'C04': ('exhaustive enumeration of redirect tables against a reference model', 'model_checking', SEQ),
    'C05': ('controlled-scheduler exploration of the real code', 'model_checking', SCHED),
    'C06': ('controlled-scheduler exploration of the real code', 'model_checking', SCHED),
    'C07': ('controlled-scheduler exploration of the real code', 'model_checking', SCHED),
    'C08': ('controlled-scheduler exploration with injected user requests', 'model_checking', SCHED),
    'C09': ('exhaustive enumeration of histories on the real code', 'model_checking', SEQ),
    'C10': ('exhaustive enumeration of displays on the real code', 'model_checking', SEQ),
    'C11': ('explicit-state exploration of environment histories with replay on the real code', 'model_checking', SEQ),
    'C12': ('explicit-state exploration of scope histories with replay on the real code', 'model_checking', SEQ),
    'C13': ('exhaustive enumeration of argument strings against a reference model', 'model_checking', SEQ),
    'C14': ('exhaustive enumeration of command line constructions against a reference model', 'model_checking', SEQ),
    'C15': ('exhaustive enumeration of scripts against bash itself', 'model_checking', SEQ),
    'C16': ('exhaustive enumeration of module programs and import histories', 'model_checking', SEQ),
    'C17': ('exhaustive enumeration of pipelines, direct against subshell, remote and pickled runs', 'model_checking', SEQ),
    'C18': ('exhaustive enumeration of process sets against a reference model', 'model_checking', SEQ),
    'C19': ('enumeration of all faults before exec on the real code', 'model_checking', SEQ),
    'C20': ('controlled-scheduler exploration of child state changes', 'model_checking', SCHED),
    'C21': ('explicit-state exploration of directory and PATH histories', 'model_checking', SEQ),
    'C22': ('exhaustive enumeration of command line configurations', 'model_checking', SEQ),
}
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    i = json.loads(line)['id']
    f = V + '/mc/props/%s.py' % i.lower()
    if os.path.exists(f):
        t, l, n = CLAIMED[i]
        src = open(f).read()
        m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
        if m:
            l = m.group(1)
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i, technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason='No check yet.'))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the engine (mc/) substitutes the system interface that pieshell runs on from outside. All commits in /repo are repairs (known_findings.txt).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
