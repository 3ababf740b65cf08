#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness named in a replay file and runs that one case."""
import sys,json,os,subprocess
import check,checks_conf
r=json.load(open(sys.argv[1]))
b=[b for b in checks_conf.CHECKS[r["property"]]["builds"] if b["name"]==r["build"]][0]
bdir=os.path.join(check.VERIF,".build",r["property"])
for s in checks_conf.CHECKS[r["property"]]["builds"]:
    if s.get("support"): check.build(s,bdir)
exe=check.build(b,bdir)
env=dict(os.environ,VERIF_TIER=r["tier"],OMP_NUM_THREADS=str(b.get("omp",1)),MC_STDERR="1",MC_BDIR=bdir,MC_SCRATCH="/tmp",MC_SHARD_DIR="/tmp")
for k,v in b.get("env",{}).items(): env[k]=v
sys.exit(subprocess.run([exe,"replay","--suite",r["suite"],"--idx",str(r["idx"])],env=env).returncode)
