sp=open('/tmp/v/sp.txt').read()
p='/verif/contracts/spec.rs';s=open(p).read()
s=s.replace("\npub broadcast group group_spec",sp+"\npub broadcast group group_spec")
open(p,'w').write(s)
