import sys,re
def sub(f,old,new):
    p='/tmp/rf/repo/'+f; s=open(p).read()
    if s.count(old)<1: print("MISSING",f,old[:60]); return
    open(p,'w').write(s.replace(old,new,1))
exec(open(sys.argv[1]).read())
