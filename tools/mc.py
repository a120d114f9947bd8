import sys; sys.path.insert(0,'/verif')
from pslib import tlc
r=tlc.tlc(sys.argv[1],cfg=sys.argv[2],workers=8,timeout=int(sys.argv[3]),heap="8g",gc="-XX:+UseParallelGC",args=sys.argv[4:])
print(r["ok"],r["code"],r["distinct"],r["generated"],r["wall"]); print(r["out"][-2500:] if not r["ok"] else '')
