import re,glob,os
os.chdir('/verif/harness/src')
mods=sorted(os.path.basename(f)[:-3] for f in glob.glob('p_*.rs'))
s=open('main.rs').read()
s=re.sub(r'(mod p_\w+;\n)+', ''.join(f'mod {m};\n' for m in mods), s, count=1)
rows=''
for m in mods:
    names=re.findall(r'pub extern "C" fn (\w+)',open(m+'.rs').read())
    rows+='    '+', '.join(f'{m}::{n}' for n in names)+',\n'
s=re.sub(r'table! \{\n.*?\n\}', 'table! {\n'+rows+'}', s, flags=re.S)
open('main.rs','w').write(s)
