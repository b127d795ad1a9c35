"""add/replace properties: reads python file with P = [(id,title,statement,over,qtext,why,files,mech,observe,tech,note)]"""
import json,sys,runpy
P=runpy.run_path(sys.argv[1])["P"]
f='/verif/properties.jsonl'
L=[json.loads(l) for l in open(f) if l.strip()]
D={p["id"]:p for p in L}
T=json.load(open('/verif/tools/technique.json'))
for (i,t,s,o,q,w,fl,me,ob,te,no) in P:
    assert len(t)<=80,(i,len(t))
    D[i]={"id":i,"title":t,"statement":s,"quantifier":{"over":o,"text":q},"why_tests_cant":w,"anchors":{"files":fl,"mechanism":[{"name":a,"where":b} for a,b in me],"observe_at":ob}}
    T[i]=[te,no]
with open(f,'w') as h:
    for i in sorted(D): h.write(json.dumps(D[i])+"\n")
with open('/verif/tools/technique.json','w') as h:
    h.write("{\n"+",\n".join(json.dumps(i)+": "+json.dumps(T[i]) for i in sorted(T))+"\n}\n")
