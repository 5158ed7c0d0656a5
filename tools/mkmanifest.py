#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC='recorded histories of the real writer/editor/reader, on an in-memory file under AddressSanitizer, are accepted or rejected step by step by TLC evaluating the TLA+ specification'
CLAIMS={
 'P01':('TLA+ trace validation (CziDoc/DocTrace) of generated scripts and of behaviours enumerated by TLC from DocGen',DOC),
 'P02':('TLA+ model check of the file design (CziFile, wrong designs must be rejected) + trace validation of raw file layouts incl. all DocGen behaviours',DOC+'; the layout is parsed by an independent scanner'),
 'P03':('TLA+ model check of the file design (CziFile) + trace validation of edit histories (random and all DocGen editor behaviours) against the abstract document',DOC),
 'P04':('TLA+ model check of crash states (CziFile) + trace validation at every crash point of recorded write logs, incl. DocGen behaviours',DOC+'; every prefix of the write log incl. torn writes'),
 'P05':('TLA+ trace validation of histories with injected I/O faults',DOC+'; throw and short-transfer faults at chosen calls'),
 'P06':('TLA+ trace validation: statistics as a function of the abstract document, random and all DocGen behaviours',DOC),
 'P07':('TLA+ trace validation of queries against the abstract document',DOC),
 'P08':('TLA+ trace validation of frame-of-reference conversions',DOC),
 'P25':('TLA+ trace validation of the object life-cycle state machine, incl. all call sequences TLC enumerates from DocGen (life mode)',DOC),
}
import importlib.util
extra=os.path.join(os.path.dirname(os.path.abspath(__file__)),'claims_extra.py')
if os.path.exists(extra):
    ns={}; exec(open(extra).read(),ns); CLAIMS.update(ns['CLAIMS'])
props=[json.loads(l) for l in open(os.path.join(ROOT,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS and os.path.exists(os.path.join(ROOT,'checks','c_%s.py'%i.lower())):
        t,n=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd='python3 checks/run.py %s quick'%i,thorough_cmd='python3 checks/run.py %s thorough'%i,technique=t,level='model_checking',level_note=n+'. Assumes: episodes explored are a seeded sample of the input space; TLC and the recorder (harness) are trusted.',evidence_file='evidence/%s.json'%i))
    else: na.append(dict(property=i,reason='no check is registered for this property yet'))
m=dict(version=1,setup_cmd='bash lib/setup.sh',checks=checks,hooks=dict(guard='LIBCZI_VERIF (unused: no hooks were needed)',enable='the checks build /repo unmodified through lib/build.sh; the driver is added with CMAKE_PROJECT_libCZI_INCLUDE',source_commits=[]),not_applicable=na,notes='TLA+ specifications in specs/, conformance driver in harness/, see DESIGN.md')
json.dump(m,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
