import subprocess,json
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
M={'onwd_evo accessor':'C03','onwd_evo and onto_evo':'C03','combine_dyn_gen':'C02','compute_prop_grad':'C04','get_timeslot_for':'C05','DEBUG_INTENSE':'C21','TDAPPROX gradient':'C06','SU fidelity':'C05','unitarity checking':'C04','AUG_MAT':'C04','time dependent controls failed':'C02','symplectic phase operator':'C02','onto_evo_target':'C03','dyn_gen_phase of':'C02','in-place changes':'C07','trace difference fid':'C05','create_dir':'C22','text attributes':'C18','StatsDyn':'C21','stats.num_iter':'C21',"result's fidelity":'C09','BFGS reported the wrong':'C09','explicitly set bounds':'C08','zero amplitude bounds in the conf':'C08','L-BFGS-B reported':'C09','max_iter_exceeded':'C09','number of waves':'C13','linear pulses':'C13','zero and random pulses':'C11','a mean of zero':'C13','random pulses failed':'C11','bounds set to infinity':'C11','CRAB gen_pulse':'C12','randomize_freqs':'C12','unusable CRAB':'C12','CUSTOM dumping':'C17','relative and home':'C17','dump files kept':'C17','dump files contained':'C17','dump files for a custom':'C17','dumps of Qobj':'C17','limits of one run':'C10',"caller's dictionaries":'C19','alg CRAB':'C20','bounds of zero were':'C20','lists of amplitude bounds':'C20','wrong length':'C23','empty drift':'C23','starting pulses given':'C14','time penalty of grape_unitary_adaptive':'C14','different time penalty':'C14','adaptive GRAPE result':'C15','gradients in the optimisation dump':'C17','TD_APPROX was refused':'C20','ignored tslot_params':'C20'}
out=[]
for l in log:
    h,m=l.split(' ',1)
    if not m.startswith('fix:'): continue
    c=[v for k,v in M.items() if k in m]
    assert len(c)>=1,(m,c)
    out.append(f"fixed: property={c[0]} {h} {m[5:]}")
d=json.load(open('/verif/known_findings.json'))
d['fixed']=out
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
print(len(out))
