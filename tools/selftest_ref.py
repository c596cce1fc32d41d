import hashlib, hmac, subprocess, zlib, sys, os
here=os.path.dirname(os.path.abspath(__file__))
import tempfile; _d=tempfile.TemporaryDirectory(); exe=_d.name+"/s"
subprocess.check_call(["clang++-18","-std=gnu++20","-O1","-I",here+"/../ref",here+"/selftest_ref.cpp","-o",exe])
n=0
for l in subprocess.check_output([exe],text=True).splitlines():
    name,ln,h,m=l.split(); ln=int(ln); b=bytes((i*7+ln)&255 for i in range(ln))
    if name=="crc32": e="%08x"%zlib.crc32(b); em="-"
    else:
        pn=name.replace("-","_"); e=hashlib.new(pn if 'sha3' in name else name,b).hexdigest(); em=hmac.new(b,b,pn).hexdigest()
    assert e==h,(name,ln); assert em==m,(name,ln); n+=1
os.unlink(exe); print("reference digests agree with hashlib:",n)
