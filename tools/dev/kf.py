import json,subprocess
p='/verif/known_findings.json'
d=json.load(open(p))
keys=['np.ptp','np.nanstd','statampere','numpy scalar on the left']
for e,k in zip(d['findings'],keys): e['key']=k
if len(d['findings'])==4:
    d['findings']+=[{"property":"C23","what":"np.nansum(uncertain quantity): numpy's function does not call the method of that name, the uncertainties of missing entries are counted (method and pq.nansum are right); call site np.nansum only","key":"np.nansum"},
    {"property":"C23","what":"np.nanmean(uncertain quantity): numpy's function does not call the method of that name, the uncertainty is that of the sum, not of the mean (method is right); call site np.nanmean only","key":"np.nanmean"}]
P={'449f8a2':'C08','eb8ab3e':'C07','49917cb':'C05','cda2ac0':'C10','004d9b1':'C14','073e4c3':'C14','a4abe5a':'C03','8ebea05':'C09','484f9e4':'C12','c87fb0e':'C12','bff46a3':'C13','d3f1985':'C13','c8285ae':'C16','2bd2f33':'C16','badd6af':'C16','ccf67cf':'C16','566ec37':'C07','a957c65':'C07','79ca8e2':'C07','0fd45c3':'C08','7601bc6':'C08','57c37a1':'C08','44225b3':'C08','2008c2e':'C08','672e4a8':'C08','ff3f6ad':'C26','3396516':'C23','6aa7397':'C23','731f12e':'C15','f2d611a':'C15','711911a':'C15','25c0ef3':'C05','0d611a6':'C03','31969ae':'C03','d66c02a':'C23','a944408':'C14','4aa8819':'C19','3e33aac':'C23','c1debab':'C18','9dcaa87':'C05','c21a924':'C07','9ef0c16':'C10','5bcade5':'C11','a219b32':'C11','da32779':'C12','b73de7a':'C12','90bb313':'C13','d3aa091':'C17','ca88ed5':'C12','d8e6220':'C18','d6b3c4d':'C20','74123af':'C18','b7cf2e4':'C22','29205ff':'C22','490bc65':'C23','fb338ab':'C10','848b7cb':'C23','c58fff8':'C23','a157d66':'C23','adcbf58':'C23','b202055':'C23','720e794':'C21','47642ec':'C26','8d281bd':'C26','f193178':'C10','50c3b96':'C11','01e256d':'C15','82f78b5':'C23','3afb0b7':'C15','06fc794':'C23'}
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        if h not in P: print('missing',h,s); continue
        out.append('fixed: property=%s %s %s'%(P[h],h,s[5:]))
d['fixed']=out
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write('\n')
