import glob,json,os
r=["| bug | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(d)); r.append("| %s | %s | %s | %s |"%(d.split("/")[3],m["property"],m["needs"].replace("|","/"),m.get("caught_by","quick "+m["property"])))
t=open("/verif/DESIGN.md").read(); i=t.index("## Seeded bugs\n"); open("/verif/DESIGN.md","w").write(t[:i]+"## Seeded bugs\n\n"+"\n".join(r)+"\n")
