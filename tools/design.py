"""Writes DESIGN.md from tools/design/*.md, the check modules, known_findings and the planted bugs."""
import glob
import sys,json,re,os
sys.path.insert(0,'/verif/mc')
import importlib
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
WHY={
'C01':('reference parser says which texts hold no construct; identity up to a reference clean-up','a test samples contexts; brackets, quotes, comments and every Latin-1 character interact pairwise'),
'C02':('independent parser of the published grammar; trees compared node by node','acceptance is over all derivations'),
'C03':('outcome is exactly one of (text, no error) / (failure, one report), in time and memory','totality; hangs and escapes hide in rare constructs'),
'C04':('reference binder','function shape x call shape x form is combinatorial'),
'C05':('model of a lexically scoped store (S)','aliasing and shadowing need histories'),
'C06':('reference evaluator','nesting of loops, conditions, subscripts'),
'C07':('the program with the substituted text in place of the call','number and moment of evaluation'),
'C08':('iterator model (S)','state carried between uses'),
'C09':('module model: search order, once/always, skip (S)','graphs and placements'),
'C10':('table written from the documentation; pairs of calls','hidden state, corner values'),
'C11':('the same run as the only one of a fresh process (S)','process-wide state'),
'C12':('model of the output protocol, directory compared file by file (S)','file effects of histories'),
'C13':('old-or-new invariant on the surviving files, then a recovery run','needs an injected fault at every operation'),
'C14':('model of contents and file times, all reachable states laid out (S)','histories of edits and imports'),
'C15':('direct translation of the file in its encoding; values the body computes','the codec has no tests'),
'C16':('place known by construction','fault x position x nesting'),
'C17':('each copied character is unique, so its origin is known','offsets over nested rendering'),
'C18':('the same source with plain options','parallel code paths for recording and tracing'),
'C19':('layout model','indents x columns x constructs'),
'C20':('line filter model, idempotence','sequences of white space'),
'C21':('model of precedence (S)','no tests of options'),
'C22':('model of passages and files (S)','no tests of passages'),
'C23':('generator model of coroutines; compiled program under every schedule','schedules'),
'C24':('models written from README/comments; gcc -E for headers','two functions have one test each'),
'C25':('model of the session; each entry alone in a fresh process','no tests'),
'C26':('the standard traceback of the generated files executed in place of the sources','no tests'),
'C27':('reference evaluator with late environments','scoping'),
}
out=[]
for p in props:
    i=p['id']
    m=importlib.import_module(i.lower())
    out.append('### %s %s\n'%(i,p['title']))
    out.append('Explored: %s.\n'%m.RULE)
    out.append('Oracle: %s.  Beyond tests: %s.\n'%WHY[i])
    out.append('Assumptions/exclusions: %s.\n'%'; '.join(m.ASSUMPTIONS))
    ev='/verif/evidence/%s.json'%i
    fams=m.families('quick')
    out.append('Families (quick cases): '+'; '.join('%s %d%s'%(f.name,len(f.space),' ('+f.what+')' if f.what else '') for f in fams)+'.\n')
    if os.path.exists(ev):
        d=json.load(open(ev)); out.append('Level `%s`; quick about %.0f s alone.\n'%(m.LEVEL,d['wall_s']))
mid = '\n'.join(out)

head=open('/verif/tools/design/head.md').read()
tail=open('/verif/tools/design/tail.md').read()
fx=[];fi=[]
for l in open('/verif/known_findings'):
    l=l.rstrip('\n')
    if l.startswith('fixed: property='):
        p,c,t=l[len('fixed: property='):].split(' ',2); fx.append('* %s `%s` %s'%(p,c,t))
    elif l.startswith('finding: property='):
        p,k,t=l[len('finding: property='):].split(' ',2); fi.append('* %s `%s` %s'%(p,k[4:],t))
sd=['| planted bug | needs | caught by |','|---|---|---|']
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    sd.append('| %s | %s | %s |'%(n,d['needs'].replace('|','\\|'),d.get('caught_by',d['property'])))
tail=tail.replace('@FIXED@','\n'.join(fx)).replace('@FINDINGS@','\n'.join(fi)).replace('@SEEDS@','\n'.join(sd))
open('/verif/DESIGN.md','w').write(head+'\n'+mid+'\n'+tail)
