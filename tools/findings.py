import subprocess
M={'d9bcfeb':'C09','8eddc64':'C27','d0e01e4':'C06','9b1e4a9':'C06','d3f3844':'C16','2270e2d':'C06','92268fe':'C24','42e1dcd':'C04','32d4e2e':'C04','5fd1333':'C13','f9ba270':'C22','f61cea4':'C04','9c24ee7':'C15','5124029':'C15','205a40a':'C15','f50bcc1':'C02','3047fb8':'C01','53e1cd5':'C22','0dc2ae4':'C03','5839de2':'C06','bcc8b1f':'C05','70e6c62':'C03','9d6df1a':'C01','a2d967a':'C02','f3662e8':'C02','1a3f153':'C08','999a4d6':'C07','ec7d6af':'C19','97f153d':'C19','68be1e2':'C19','988e0c6':'C08','2ae088e':'C23','2708b7f':'C09','192ed4c':'C07','6f1fb48':'C10','b57a6ea':'C10','c1e1712':'C21','0da081c':'C11','69cf09f':'C12','6dc58b5':'C20','69c4416':'C12','86da582':'C16','7319f7f':'C16','5c74700':'C17','4de527c':'C23','fec26e3':'C25','d2cbb6e':'C04','5838b6a':'C04','5ae46b2':'C05','3d71777':'C01','8d6b971':'C22','1099696':'C13','ca3b09e':'C10','ffb94cf':'C02','095a78d':'C15','c819240':'C06','c973fa8':'C06','03dbfb7':'C16','4992882':'C04','04558bb':'C06','3d89937':'C01','2bbeca9':'C21','7dc2d3c':'C13','8bd779a':'C12','94f51a2':'C17','29b9d40':'C16','d54a62b':'C16','411e80a':'C24'}
log=subprocess.run("git -C /repo log --reverse --format='%h %s' 19971cf..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split('\n')
out=open('/verif/tools/findings.head').read()
for l in log:
    h,s=l.split(' ',1)
    out+="fixed: property=%s %s %s\n"%(M[h],h,s.replace('fix: ',''))
open('/verif/known-findings.txt','w').write(out)
