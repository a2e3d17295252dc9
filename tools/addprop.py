import re,sys
p='/verif/harness/src/props/mod.rs'; s=open(p).read()
for i in sys.argv[1:]:
    if f'pub mod {i};' not in s:
        s=s.replace('pub mod c22;',f'pub mod {i};\npub mod c22;',1)
        s=s.replace('c22::SPEC',f'{i}::SPEC, c22::SPEC',1)
open(p,'w').write(s)
