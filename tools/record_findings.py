#!/usr/bin/env python3
"""maintainer's tool (no check runs it): writes the fixed list and the findings of the schema checks into known_findings.json"""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(R)
m="""a9e4dc0 W05;e0fd506 W05;056ad3f W01;a5dc096 H01;e4deac5 W05;5eef058 H01;dc0153d W05;92a9eff R03;538db54 W04;0226520 H01;f1019ab H01;98f794e R02;8967ad8 W05;725b2f6 R04;f2ff3f0 R03;1fee582 R02;64f75f1 R02;645d6c3 G02;46ae0a1 G03;47bb678 G02;f486774 H01;5926897 G03;3d05f09 H01;9af57ef G01;ca973d4 G04;9f051be C03;a861b27 G07;35a9bba G07;a81aa51 G07;d6ff141 G08;ddfd65b G05;670d0ae G08;0003f4a G08;26a186e C04;ee5833e G07;d7260d0 G07;c997a2f C04;58548ad G05;400300c C04;7cc3bcb C04;2fccba4 G07;5a1e3d2 G06;fe0aa66 C03;13765cc G06;8f8a8a5 H03;66ab32f C03;3358e84 G05;e6ef831 G05;66b9ce1 G06;9287fd0 C04;1922673 C04;8d980a5 G07;857137f G07;c87139c C04;10c9b38 G07;7396f70 C04;c86d5ce C04;f8318f5 C04;154cb20 C04;106ab85 C04;c743d34 C04;c21fd98 C01;7db71c8 C04;668897b C03;ea500a9 C03;acd23e8 G08;2f0a423 G08"""
log={l.split(' ',1)[0][:7]:l.split(' ',1)[1] for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()}
k=json.load(open('known_findings.json'))
k['fixed']=[]
for x in m.split(';'):
    h,p=x.split(); s=log.pop(h); assert s.startswith('fix: '),s
    k['fixed'].append('fixed: property=%s %s %s'%(p,h,s[5:]))
print([s for s in log.values() if s.startswith('fix')])
A=lambda p,key,what: None if any(f['property']==p and f['key']==key for f in k['findings']) else k['findings'].append(dict(property=p,key=key,what=what))
for t,f in (('vcompounds::aligned::Aligned','c'),('varrays::optional_arrays::OptionalArrays','f'),('reference_modules::alignment::alignment::alignment_struct::AlignmentStruct','boValue4')):
    for pl in ('plain','packed'):
        A('G05','%s:%s:field %s:align-before-presence'%(t,pl,f),'%s.%s (%s): the alignment of an optional field is emitted before its presence bit, also when the field is absent; the schema attaches it to the field. The existing alignment test pins the layout'%(t.split('::')[-1],f,pl))
A('G06','reference_modules::bitmask_test::bitmask_test::bitmask_with_zero::BitmaskWithZero:item VALUE_A','BitmaskWithZero.VALUE_A follows a zero item and becomes 1; the reference compiler assigns 2. The existing round trip test pins 1')
A('G07','reference_modules::bitmask_isset::bitmask_isset::bitmask_test::BitmaskTest:fn hasAOrC:value','isset with a mask of several bits is true when any of them is set, the reference requires all. The existing test pins any')
o=subprocess.run(['python3','check.py','G07'],capture_output=True,text=True).stdout
for l in o.splitlines():
    if l.startswith('  [') and ':overflow]' in l:
        key=l[3:l.index('] ')]
        A('G07',key,'%s: schema arithmetic is carried out in the Rust type of its operands and overflows (debug: panic, release: wrap) where the schema computes in 64 bits'%key.rsplit(':overflow',1)[0].replace('reference_modules::',''))
json.dump(k,open('known_findings.json','w'),indent=1); print(len(k['findings']),len(k['fixed']))
