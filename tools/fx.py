import subprocess
def sub(a,b,cnt=1,fn=None):
    s=open(fn).read(); assert s.count(a)==cnt,(s.count(a),a); open(fn,'w').write(s.replace(a,b))
def commit(m): subprocess.check_call(['git','-C','/repo','commit','-qam',m])
