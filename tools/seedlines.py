# says which planted bugs change no line of the original repository
import subprocess,re,glob,sys
for d in sorted(glob.glob('/verif/seeded/*/')):
    patch=open(d+'patch.diff').read()
    orig=own=0; f=None
    for l in patch.split('\n'):
        m=re.match(r'--- a/(.*)',l)
        if m: f=m[1]; bl=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n'); continue
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            if l[1:].strip():
                if bl[n-1].startswith('^'): orig+=1
                else: own+=1
            n+=1
        elif l.startswith(' '): n+=1
    print(d.split('/')[-2],'orig',orig,'own',own,'' if orig else '  <<<')
