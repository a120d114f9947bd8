import sys, os, json, subprocess, time
S="/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
allp = os.environ.get("ALLP")
for i in ids:
    m=json.load(open(f"{S}/{i}/meta.json"))
    props=[m["property"]] if not allp else [f"C{n:02d}" for n in range(1,24)]
    subprocess.run(["git","-C","/repo","checkout","-q","--","."])
    subprocess.check_call(["git","-C","/repo","apply",f"{S}/{i}/patch.diff"])
    try:
        for p in props:
            t=time.time()
            r=subprocess.run(["python3","check.py",p,"quick"],cwd="/verif",env=dict(os.environ,VERIF_SEED="1",VERIF_TIER="quick"),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True,timeout=900)
            v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i,p,"rc",r.returncode,len(v),"violations","%.0fs"%(time.time()-t),"" if v else r.stdout[-300:],flush=True)
    finally:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."])
