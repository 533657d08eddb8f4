#!/usr/bin/env python3
# compose.py name=file.graphql ... : prints a supergraph with http://SUB/<name> urls (uses the harness composer)
import sys, json, subprocess
subs=[]
for a in sys.argv[1:]:
    n,f=a.split('='); subs.append({"name":n,"url":"http://SUB/"+n,"sdl":open(f).read()})
p=subprocess.run(["/verif/composer/target/debug/vcomposer"],input=json.dumps({"subgraphs":subs})+"\n",capture_output=True,text=True)
v=json.loads(p.stdout)
if not v.get("ok"): print(v,file=sys.stderr); sys.exit(1)
print(v["supergraph"])
