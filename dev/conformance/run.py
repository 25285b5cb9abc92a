# Compares what the interpreter makes of small functions with what they really compute (see run.sh).
import os, sys
D=os.environ['CONF_DIR']
os.environ['VERIF_REPO']=D; os.environ['VERIF_CACHE']=D+'/cache'
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..')); sys.dont_write_bytecode=True
from sa.core import *
from sa import vdg
import traceback
def main():
    W=World()
    real={}
    for l in open(D+'/real.txt'):
        x=l.rstrip('\n').split(' ')
        real[x[0],int(x[1])]=[int(h,16) for h in x[2].split(',')] if len(x)>2 and x[2] else []
    want=sys.argv[1:]
    names=[]
    for k in real:
        if k[0] not in names: names.append(k[0])
    FS=[3,11,7,5,2]; US=[2,7,12,5,9]
    cnt={'ok':0,'WRONG':0,'UND':0,'EXC':0}
    for nm in names:
        if want and nm not in want: continue
        res='ok'; why=''
        try:
            W.fresh()
            I=W.I
            st=I.new_state()
            n=sym('n','I')
            v=I.call_key(st, C+'t_'+nm, [W.symseq('f',('adt',FE,()),(),n), W.symseq('u',('int','u64'),(),n), n], {})
            for k in (3,4,5):
                S=Sample(1,{'n':k},over={'f':lambda i:FS[i],'u':lambda i:US[i]})
                S.ints['u']=lambda i:US[i]
                try:
                    r=[x for x in S.ev(v)]
                except Undecided as e:
                    res='UND'; why=str(e)[:150]; break
                if r!=real[nm,k]:
                    res='WRONG'; why='n=%d got %s want %s'%(k,str(r)[:100],str(real[nm,k])[:100]); break
                try:
                    p=S.ev(st.cells[PANIC])
                    if p: res='WRONG'; why='panic %r'%(p,); break
                except Undecided as e:
                    res='UND'; why='panic: '+str(e)[:150]; break
        except Exception as e:
            res='EXC'; why=repr(e)[:150]
            if want: traceback.print_exc()
        cnt[res]+=1
        if res!='ok' or want: print('%-6s %-22s %s %s'%(res,nm,why,dict(I.unknown) if res=='UND' else ''))
        if want and len(want)==1 and '-v' in os.environ.get('V',''): print(v)
    print(cnt)
big(main)
