"""Writes known_findings.jsonl from the fix: commits in /repo (run by hand)."""
import subprocess
log=subprocess.check_output("git -C /repo log --reverse --format='%h %s' bdf474f..HEAD",shell=True,text=True).splitlines()
M={ "generator methods read":"C09","out-of-domain":"C09","refuse shapes":"C09","unseeded":"C10","slice negative":"C05","out-of-range indices":"C05","save Fortran":"C01","keep .npy":"C01","writing .npz files survives":"C01","refuse .npy files with string":"C01","damaged .npy":"C03","storage error while":"C02","text readers report":"C04","reading raw bytes":"C03","text writers refuse":"C04","exported and saved string":"C01","big-endian":"C01"}
M2={"item assignment":"C05","sort() sorts":"C05","reshape of non-C":"C05","sorting moves":"C05","in-place element writes":"C05","copyto":"C05","shuffle works":"C05","resize refuses":"C06","rows of length zero":"C05","permutation of an":"C08","reading one element":"C05","integers() is exact":"C08",
"place and putmask":"C05","array() and round()":"C05","foreign array to another dtype":"C05","astype keeps complex":"C05","swapaxes":"C05"}
M.update(M2)
def D(s):
    for k,p in {"delete, multi_dot":"C07","ediff1d converts":"C14","digitize refuses":"C14","is_busday":"C14","transpose refuses":"C14","batch axes":"C14","misaligned foreign":"C12","rank-deficient":"C15","diagonal of":"C14","einsum of repeated":"C15","text readers and writers":"C04","iterators, lists":"C16","taking callbacks":"C11","Python numbers and lists":"C12","cumulative_sum":"C14"}.items():
        if k in s: return p
    print("C17:",s)
    return "C17"
out=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    pid=[p for k,p in M.items() if k in s]
    if not pid: pid=[D(s)]
    out.append("fixed: property=%s %s %s"%(pid[0],h,s[5:]))
open('/verif/known_findings.jsonl','w').write("\n".join(out)+"\n")
