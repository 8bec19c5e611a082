import re
s=open(__import__('glob').glob('/root/.cargo/registry/src/*/target-lexicon-0.13.2/src/targets.rs')[0]).read()
def variants(name):
    b=re.search(r'pub enum %s \{(.*?)\n\}'%name,s,re.S).group(1)
    b=re.sub(r'//[^\n]*','',b)
    b=re.sub(r'#\[cfg\(feature = "arch_zkasm"\)\]\s*ZkAsm,','',b)
    b=re.sub(r'#\[.*?\]','',b)
    b=re.sub(r'/\*.*?\*/','',b,flags=re.S)
    return [x.strip() for x in b.split(',') if x.strip()]
subs={}
out=['//! every value of target-lexicon 0.13.2 fields (custom vendors: a few)','use target_lexicon::*;','pub const ARCHS: &[Architecture] = &[']
for v in variants('Architecture'):
    m=re.match(r'(\w+)\((\w+)\)',v)
    if m:
        for w in variants(m.group(2)):
            w=w.split(',')[0].strip()
            out.append('    Architecture::%s(%s::%s),'%(m.group(1),m.group(2),w))
    else: out.append('    Architecture::%s,'%v)
out.append('];\npub const OSES: &[OperatingSystem] = &[')
for v in variants('OperatingSystem'):
    m=re.match(r'(\w+)\(',v)
    if m:
        out.append('    OperatingSystem::%s(None),'%m.group(1))
        out.append('    OperatingSystem::%s(Some(DeploymentTarget { major: 10, minor: 4, patch: 2 })),'%m.group(1))
    else: out.append('    OperatingSystem::%s,'%v)
out.append('];\npub const ENVS: &[Environment] = &[')
for v in variants('Environment'): out.append('    Environment::%s,'%v)
out.append('];\npub const FORMATS: &[BinaryFormat] = &[')
for v in variants('BinaryFormat'): out.append('    BinaryFormat::%s,'%v)
out.append('];\npub const VENDORS: &[Vendor] = &[')
for v in variants('Vendor'):
    if not v.startswith('Custom'): out.append('    Vendor::%s,'%v)
for c in 'nuttx rtems esp esp32 esp32s2 esp32s3 openwrt x'.split(): out.append('    Vendor::Custom(CustomVendor::Static("%s")),'%c)
out.append('];')
open('/verif/harness/gen/lexicon.rs','w').write('\n'.join(out)+'\n')
print(len(out))
