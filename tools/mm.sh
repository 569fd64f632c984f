#!/bin/bash
# mm.sh FILE: run mutants listed as blocks "PROPS<TAB>file<TAB>old<TAB>new" (\n allowed as literal backslash-n), 4 at a time
python3 - "$1" <<'P'
import sys, subprocess
from concurrent.futures import ThreadPoolExecutor
rows=[l.rstrip('\n').split('\t') for l in open(sys.argv[1]) if l.strip()]
def one(r):
    props,f,old,new=r; old=old.replace('\\n','\n'); new=new.replace('\\n','\n')
    ps=props.split(',')
    o=subprocess.run(['python3','/verif/tools/mut.py',ps[0],f,old,new]+ps[1:],capture_output=True,text=True,timeout=800).stdout
    return old[:60].replace('\n','~'),new[:60].replace('\n','~'),o
with ThreadPoolExecutor(3) as ex:
    for a,b,o in ex.map(one,rows):
        print('##',a,'=>',b)
        for l in o.splitlines(): print('   ',l[:1200])
P
