import subprocess
log=dict((l.split(' ',1)[1].strip(), l.split(' ',1)[0]) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines())
ids={'levenshtein_distance single character':['C01'],'beyond the BMP':['C01','C02'],'free its buffers':['C04'],'MemoryError':['C04'],
'pairwise_leader':['C08'],'honor min_size':['C16'],'collide with itself':['C16'],'quickjoin must convert':['C12'],'vp_tree clustering':['C13'],
'passjoin must':['C10'],'token positions':['C11'],'default token ordering':['C11'],'records without tokens':['C11'],'adaptive_sorted':['C17'],
'multipass':['C17'],'MinHash must not crash':['C19'],'guess more bands':['C18'],'nn_descent must handle':['C18'],'same neighbor':['C18'],
'levenshtein_2d_blocks must not miss strings':['C20'],'damerau_levenshtein_2d_blocks':['C20'],'null cosine':['C21'],'orderable':['C21'],
'floatsam':['C22'],'lazy keys':['C23'],'right side is an iterator':['C23']}
def extra():
    import os
    p='/verif/tools/fixed_ids.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                k,v=l.rstrip('\n').split('\t'); ids[k]=v.split(',')
extra()
known=[l for l in open('/verif/known-findings.txt') if l.startswith('known:')]
out=[]
for subj,h in reversed(list(log.items())):
    if not subj.startswith('fix:'): continue
    ks=[k for k in ids if k in subj]
    assert len(ks)==1,(subj,ks)
    for i in ids[ks[0]]:
        out.append('fixed: property=%s %s %s\n'%(i,h,subj[5:]))
open('/verif/known-findings.txt','w').writelines(known+out)
