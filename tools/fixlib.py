import subprocess,sys,json
p='/repo/src/pypsrp/powershell.py'
def commit(msg,*reps,path=p):
    s=open(path).read()
    for a,b in reps:
        assert s.count(a)==1,(msg,s.count(a),a)
        s=s.replace(a,b)
    open(path,'w').write(s)
    subprocess.run("bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1",shell=True)
    d=json.load(open('/tmp/o.json'))
    if d['failed'] or len(d['passed'])<351:
        print("FAIL",msg,d['failed']); subprocess.run("git -C /repo checkout -- .",shell=True); return None
    subprocess.run(["git","-C","/repo","commit","-qam",msg],check=True)
    h=subprocess.run("git -C /repo rev-parse --short HEAD",shell=True,capture_output=True,text=True).stdout.strip()
    print("ok",h,msg); return h
def record(prop,h,what):
    if h: subprocess.run(["python3","/verif/tools/fixed.py",prop,h,what],check=True)
