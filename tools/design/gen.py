import json,glob,os
ev={}
for f in sorted(glob.glob('/verif/evidence/C??.json')):
    e=json.load(open(f)); ev[e['property']]=e
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
WHY={
'C01':"Bounds: none on data, options are symbolic; scenarios enumerate which optional arguments are given. Tests never look at their inputs afterwards.",
'C02':"Every reading operation of every method class is analysed on a symbolic fitted object, so the argument covers all tables and all options. Tests do not read twice.",
'C03':"Holds for all seeds, hash seeds and data; a test sees one process and one hash seed. Library draws (sample, permutation, choice, shuffle, estimators with random_state) are in a table; an unknown library call taking the generator is undecided.",
'C04':"All four kinds of model (with/without predict_proba, predict function given or not) as partially evaluated path conditions.",
'C05':"The acceptance test is a formula over two atoms (same model, equal data) and is evaluated in all combinations; approximations such as equal columns, equal type or equal length stay symbolic and show up as paths on which a mismatch is accepted.",
'C06':"Every class x every reading operation x every plot type; refusing is a must-property over all paths, accepting a never-property.",
'C07':"Quantifies over histories: one earlier fit with unknown arguments is enough, because what an earlier fit can leave is over-approximated by fresh tagged symbols for every attribute.",
'C08':"Rows are traced to the loop or comprehension that makes them; loops are summarised for every number of features.",
'C09':"Exhaustive over metrics and classes; direction flags are evaluated on the fitted abstract object, so a metric-dependent flag is split per metric.",
'C10':"Relational: summary panels against stand-alone calls; data arguments against the method's own tables. What the drawing library does with its arguments is outside.",
'C11':"Exhaustive over class x plot type x an undeclared name.",
'C12':"An inductive invariant of the loops, hence for every batch size, data size and request history. Nothing is unrolled.",
'C13':"Roles are term identities, not names or positions, so the verdict holds for all feature names, orders and values.",
'C14':"The selector is compared as a term, so labels, duplicates and the type of y do not matter.",
'C15':"Finite decision table (2 packages + other, 16 x 16 metric combinations), evaluated on path conditions.",
'C16':"Frames are functions of (data, column writes); the analysis of one loop iteration starts from what the previous iteration left.",
'C17':"An abstract domain (degree of homogeneity, coefficient of the shift); no number is ever computed.",
'C18':"Linear forms over reads; coefficients have to be exactly 1, -1, -1 and keys have to be those of the row.",
'C19':"Sign of the coefficient per metric class; the metric table is read from the source.",
'C20':"Exchange of child links as a substitution on normalised writes: a proof of mirror symmetry for all trees.",
'C21':"Injectivity is decided per position where a name is used as identity; for all names.",
'C22':"The lookup mask is a boolean function over the possible relations of a row to a pair and is compared with the specification on all of them.",
'C23':"Two symbolic runs compared term by term (non-interference).",
'C24':"Effects on module, class, default-argument and library-wide state; plot option dictionaries kept by objects.",
'C25':"Binding against the package source and the installed library sources (parsed, never imported). `**kwargs` of the caller are not judged.",
'C26':"Columns of both libraries' tree tables are read from their installed source; models are arbitrary.",
'C29':"The operands' index and order are tracked; a join by position or by codes of names is a violation.",
}
out=[]
w=out.append
w(open('/verif/tools/design/head.md').read())
w("## 3. Properties\n")
w("Obligations and scenarios are those of the current tree (evidence files hold them per run). One check alone takes 5 to 60 s, all of them together about 100 s, because scenarios are shared.\n")
for p in props:
    i=p['id']
    w("### %s %s\n"%(i,p['title']))
    if i in ev:
        c=ev[i]['coverage']
        w("*Decided by.* "+c['explanation']+"\n")
        w("*Reach.* "+WHY[i]+" %d obligations in %d scenarios: %s.\n"%(c['obligations'],c['scenarios'],', '.join('%s %d'%(k,v['discharged']) for k,v in c['by_rule'].items())))
    else:
        na={n['property']:n['reason'] for n in json.load(open('/verif/MANIFEST.json'))['not_applicable']}
        w("*Not applicable.* "+na[i]+"\n")
w(open('/verif/tools/design/mid.md').read())
w("| change | property | what it breaks | caught by |\n|---|---|---|---|")
caught=json.load(open('/tmp/caught.json')) if os.path.exists('/tmp/caught.json') else {}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    w("| %s | %s | %s | %s |"%(d,m['property'],m['what_it_breaks'].replace('|','/'),caught.get(d,m['property'])))
w("\n"+open('/verif/tools/design/tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(out))
