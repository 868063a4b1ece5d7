#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/bugs/<id>.py (PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO)."""
import json, os, shutil, subprocess, sys, runpy
V='/verif'; R='/repo'
ids=sys.argv[1:] or sorted(f[:-3] for f in os.listdir(V+'/tools/bugs') if f.endswith('.py'))
assert not subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout, 'repo not clean'
for i in ids:
    b=runpy.run_path(f'{V}/tools/bugs/{i}.py')
    d=f'{V}/seeded/{i}'
    os.makedirs(d,exist_ok=True)
    try:
        for f,old,new in b['EDITS']:
            p=f'{R}/{f}'; s=open(p).read()
            assert s.count(old)==1,(i,f,s.count(old))
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True,check=True).stdout
    finally:
        subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':b['PROPERTY'],'needs':b['NEEDS'],'what_it_breaks':b['BREAKS']},open(d+'/meta.json','w'),indent=1)
    shutil.copy(V+'/tools/demo/demo.sh',d); shutil.copy(V+'/tools/demo/Cargo.lock',d); shutil.copy(V+'/tools/demo/engine.rs',d)
    w=open(V+'/harness/src/world.rs').read()
    open(d+'/world.rs','w').write(w)
    head='#![allow(warnings)]\nmod engine;\nmod world;\nuse engine::block_on;\nuse world::*;\nuse keyhive_core::{access::Access, event::static_event::StaticEvent, principal::{identifier::Identifier, public::Public}};\nuse std::collections::*;\n'
    open(d+'/demo.rs','w').write(head+b['DEMO'])
    print(i,'ok')
