#!/usr/bin/env python3
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O={
'C01':"the conditional Gaussian written out with explicit determinants and cofactors of the symbolic matrices (no factorisation), compared with the terms Eigen's pivoted LDLT produced, on each pivot order; fit by dataset, by features+targets, by `fit_model(...)`, predictions by mean/marginal/joint, with and without measurement noise",
'C02':"a second fit to all the data (the same real code, a different path through it), plus the explicit conditional at 1+1; the old fit is compared with itself afterwards",
'C03':"the log density spelled out term by term (log, determinant and quadratic form as canonical terms)",
'C04':"an explicit refit without the held-out rows, as terms; groupings chosen symbolically",
'C05':"the definition of a partition, and a recording model under cross validation that reveals its training set and answers with feature-specific symbolic values",
'C06':"hand-written filters and loops over the symbolic elements, for every coincidence of keys (forked)",
'C07':"the sum, product, scaling and bilinear expansion of table-driven kernels with symbolic tables; nestings by type",
'C08':"the serial call on the same input; every order of tasks and every place where a task may run (queue, worker, get) is a fork; per-byte happens-before race detection",
'C09':"the dense matrix product/inverse/determinant via cofactors",
'C10':"the exact process whose covariance is Q + blockdiag(K - Q) + noise, as terms; exact process with inducing = training points",
'C11':"a specification of RANSAC over the recorded calls (which candidates were drawn, what each metric answered), every answer symbolic",
'C12':"a map from name to value kept beside the real store",
'C13':"a log of every objective evaluation with arbitrary symbolic answers; the result has to be the least of them and inside the bounds",
'C14':"the textbook log densities over exp/log/erf terms",
'C15':"linear algebra of means and covariances written with loops",
'C16':"pairs (feature, target, variance) tracked as symbolic triples",
'C17':"the defining formulas over sqrt/exp terms; monotonicity and bounds through tangent lemmas for exp and acos",
'C18':"the sums of powers, and term-by-term sums and products of tables",
'C19':"the definitions written with loops; the sampled energy score with draws chosen by the harness",
'C20':"equality (and equality of predictions) between the loaded and the saved object, contents symbolic; malformed input by symbolic truncation and sizes",
'C21':"byte equality for every content; arbitrary codec answers must be refused or give the content",
'C22':"every spanning tree of the graph enumerated by the harness as an assertion over symbolic weights (solver decides optimality for every weight)",
'C23':"the explicit coefficient polynomials and the Pell-type identity, as polynomial identities",
'C24':"alternative and value kept beside the container; casts in bit-vector/IEEE mode against the exact number",
'C25':"the definition with every generator output symbolic; the sampler's own stretch-move equations",
'C26':"closed forms (exp series for whole a, monomials up to degree 99, order statistics) evaluated over terms",
'C27':"normal equations residual = 0 (terms), cofactor conditional",
'C28':"set definitions over chosen key patterns and symbolic values",
'C29':"a CSV parser in the harness; each number written is a token that maps to its symbolic value",
'C30':"the states and parameter store given to the callback; number tokens map each cell to its symbolic value, and `std::stod` reads a token back as that value",
'C31':"the values of the functions and objects printed, through number tokens; eigen pairs are checked by A v = l v, unit length, orthogonality and trace",
'C32':"equality of the parts the two objects were built from",
}
out=open(os.path.join(V,'tools','design_head.md')).read()
out+="\n## Properties: what decides them, within which bounds\nTitles and statements are in `properties.jsonl`. All are decided by symbolic execution of the real code as above; the oracle is what the\nassertion compares with. Tests cannot settle them since they sample a few inputs; here every value within the bounds is covered.\n\n"
for l in open(os.path.join(V,'properties.jsonl')):
    p=json.loads(l); i=p['id']; out+=f"### {i} {p['title']}\n"
    for f in sorted(glob.glob(os.path.join(V,'harness',i+'*.cpp'))):
        s=open(f).read(); b=re.search(r'^// @bounds: (.*)$',s,re.M); a=re.search(r'^// @assume: (.*)$',s,re.M)
        out+=f"* {len(re.findall(r'^HARNESS',s,re.M))} harnesses. Bounds: {b.group(1) if b else ''}\n* Assumed: {a.group(1) if a else 'none'}\n"
    out+=f"* Oracle: {O[i]}.\n\n"
k=json.load(open(os.path.join(V,'known_findings.json')))
out+="## Genuine defects found and repaired (one `fix:` commit each in /repo)\n"
for f in k['fixed']: m=re.match(r'fixed: property=(\S+) (\S+) (.*)',f); out+=f"* {m.group(1)} `{m.group(2)}`: {m.group(3)}\n"
out+="\nNo finding is left unrepaired (`known_findings.json` has an empty `findings` list).\n\n"
out+=open(os.path.join(V,'tools','design_notes.md')).read()
out+="\n## Planted bugs (`seeded/`) and the checks that catch them\n| bug | property | caught by | needs |\n|---|---|---|---|\n"
res={}
rp=os.path.join(V,'tools','seed','results.txt')
for l in open(rp) if os.path.exists(rp) else []:
    w=l.split(None,2); res[w[0]]=w[2].strip() if len(w)>2 else ''
for m in sorted(glob.glob(os.path.join(V,'seeded','*','meta.json'))):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); out+=f"| {i} | {d['property']} | {res.get(i,'not run yet')} | {d['needs']} |\n"
open(os.path.join(V,'DESIGN.md'),'w').write(out)
