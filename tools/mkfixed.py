"""Lists the repair commits of /repo in known_findings.json."""
import json,re,subprocess
prop={'harmonic numbers of numpy':'C30','relations of embedded events with int':'C19','link gaps in plots':'C27','cones of black holes of':'C26','volumes of very':'C23','embedded causets from an empty':'C19','link gaps sorted':'C27','merge event sets that':'C01','antipaths along':'C16','a failing event creation':'C32','the position given':'C31','reject sprinkling shapes':'C32','a rejected sprinkle':'C25','reject the creation of events':'C32','relate keeps':'C32','centers and edges':'C23','reject shape parameters':'C23','sortedByLabels compared':'C17','black hole cones that':'C26','black hole causality along':'C22','de Sitter causality at':'C21','plotting a hollow bicone':'C28','cone across':'C26','cones on periodic':'C26','outlines of hollow':'C28','distances in an':'C16','outline of cyl':'C28','surfaces of cyl':'C28','relating an embedded':'C19','plot with a list':'C27','empty sprinkles':'C25','axis limits':'C27','dynamic plots':'C27','plotting cones without':'C27','colour lime':'C29','harmonic numbers overf':'C30','text representation of coord':'C31','text representation of space':'C31','periodic caus':'C20','anti-de':'C21','embedded causets acc':'C19','length scale':'C19','events without coord':'C31','sprinkling into one':'C24','sprinkling into a bic':'C24','FromTextFile':'C07','sorting and':'C05','PastOf':'C10','reflected':'C08','isPath':'C09','past and future inf':'C09','isChain':'C09','LinkCount counted':'C03','FromPastM':'C06','link failed':'C03','merge left stale':'C04','merge left the':'C01','remember the':'C04','drop rem':'C04','isLink':'C03','LinkConeCard':'C03','unlinking':'C04','relate past':'C01'}
k=json.load(open('/verif/known_findings.json'))
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()[1:]:
    h,s=l.split(' ',1); s=s[5:] if s.startswith('fix: ') else s
    p=[v for a,v in prop.items() if s.startswith(a)]
    assert len(p)==1,(s,p)
    out.append(f'fixed: property={p[0]} {h} {s}')
k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
