import json, os
"""which configurations decide which property, quick and thorough"""
from check import Job

def S(args, b='a'): return ('seq', b, args)
def N(args, b='a'): return ('conc', b, args)
def R(args, b='a'): return ('ring', b, args)

VAL, GRANT, REFUSE, OVER, UNDER, INDEX, PUB, SLICE, REFEFF, MEM, OOB, UAF, DFREE, LEAK, BADFREE, LEDGER, ZERO, ALIVE, POLL, PENDFX, WAKE, PANIC, RETVAL, BLEN, VARIANT, WVAL, CTOR, SPLIT, STEPS, LOST, ORDER = [
    "consumer-value", "granted-beyond-available", "satisfiable-request-refused", "available-over-reports", "available-under-reports", "index", "published-index", "slice-window", "refused-request-had-effect",
    "in-flight-contents", "out-of-bounds", "use-after-free", "double-free", "leak", "bad-free", "destructor-ledger", "empty-slot-read-or-dropped", "liveness-flags", "poll-result", "pending-had-effect", "not-woken", "panic",
    "refused-value-altered", "buffer-length", "variants-differ", "worker-value", "constructor", "split-session", "unbounded-steps", "publication-lost", "stage-order"]
ALLSEQ = None  # no mask: every kind counts

# ---- pools: families of configurations shared by the properties, each property judging with its own kinds
A2 = 'item,slice,zc,peeka,init,copy1,clone1,clones,pushc,pwork,cwork,geti,over,mul,reset,drop,wait'
A3 = A2 + ',wavail'
OWN = 'itemd,clone1,clones,pushc,pushci,init,geti,move,drop,fault,over,reset,cwork'
V4 = 'CH,LH,CS,LS'

def sync2(T, x=''):
    q = [S(f'len={n} al={A2},move{x}') for n in (1, 2, 3)] + [S(f'len={n} al={A2}{x}') for n in (4, 5)] + [S(f'len=9 al=item,slice,peeka,over,sparse,reset{x}')]
    if T: q += [S(f'len={n} al={A2}{x}') for n in (6, 7)] + [S(f'len=4 al={A2},move{x}'), S(f'len=8 al=item,slice,peeka,reset,over{x}'), S(f'len=17 al=item,slice,sparse,peeka{x}'), S(f'len=12 al=item,slice,sparse,over,reset,pwork,cwork{x}'),
                S(f'len=3 item=cp16 al={A2},move{x}'), S(f'len=3 item=cp1 al={A2},move{x}')]
    return q
def sync3(T, x=''):
    q = [S(f'len={n} w=1 al={A3}{x}') for n in (1, 2)] + [S(f'len=3 w=1 al={A3},noadv0{x}'), S(f'len=2 w=1 al={A3},move{x}'), S(f'len=4 w=1 al=item,slice,reset,noadv0{x}')]
    if T: q += [S(f'len=3 w=1 al={A3}{x}'), S(f'len=3 w=1 al={A3},noadv0,move{x}'), S(f'len=4 w=1 al=item,slice,wavail,over,reset,drop,peeka{x}'), S(f'len=5 w=1 al=item,slice,reset,noadv0{x}'), S(f'len=6 w=1 al=item,slice,sparse,noadv0{x}')]
    return q
def own(T, x=''):
    """items that own something and unwind at a chosen clone; items of which one byte only is not zero"""
    q = [S(f'len={n} item=dr8 al={OWN}{x}') for n in (1, 2, 3)] + [S(f'len=3 item={it} al={OWN}{x}') for it in ('dr24', 'ds5', 'ds12', 'ds24', 'ds100', 'ds320')] + [S(f'len=2 item=ds1100 al={OWN}{x}'), S(f'len=2 item=ds4k al=itemd,clone1,init,move,drop{x}')]
    q += [S(f'len=2 w=1 item=dr8 al={OWN}{x}'), S(f'len=1 w=1 item=ds12 al={OWN}{x}'), S(f'len=3 v=LH item=ds12 al={OWN}{x}'), S(f'len=3 v=CS item=ds12 al={OWN}{x}'), S(f'len=3 v=CS item=ds24 al={OWN}{x}'), S(f'len=3 v=LS item=dr8 al={OWN}{x}'), S(f'len=3 item=dr8 al=itemd,zc,pwork,cwork,pushi,drop,over{x}')]
    q += [S(f'len=3 item=dr8 al=itemd,clone1,init,move,reset,drop,detc,detp,set,dreset,cwork{x}'), S(f'len=2 w=1 item=dr8 al=itemd,init,move,reset,drop,detw,detc{x}')]
    if T: q += [S(f'len=4 item=dr8 al={OWN}{x}'), S(f'len=3 w=1 item=dr8 al={OWN}{x}'), S(f'len=2 w=1 item=dr8 al=itemd,init,move,reset,drop,detw,detc,detp,set,dreset{x}'), S(f'len=5 item=dr8 al=itemd,pushi,pushci,clones,move,drop{x}'), S(f'len=2 w=1 item=ds12 al={OWN}{x}'), S(f'len=3 w=1 item=dr24 al=itemd,init,move,drop{x}')]
    return q
def zeroed(T, x=''):
    """buffers that start with empty slots"""
    q = [S(f'len={n} v=CHz item=dr8 al={OWN}{x}') for n in (1, 2, 3)] + [S(f'len=3 v=CHz item={it} al={OWN}{x}') for it in ('ds5', 'ds12', 'ds24', 'ds100', 'ds320')] + [S(f'len=2 v=CHz item=ds1100 al={OWN}{x}'), S(f'len=2 v=CHz item=ds4k al=itemd,clone1,init,move,drop{x}'), S(f'len=3 v=LHz item=ds12 al={OWN}{x}'), S(f'len=3 v=CSz item=ds12 al={OWN}{x}'), S(f'len=3 v=CSz item=ds24 al={OWN}{x}')]
    q += [S(f'len=3 v=CHz,LHz,CSz,LSz item=dr8 al=itemd,clone1,clones,pushc,pushci,init,geti,move,drop,reset,cwork,over{x}'), S(f'len=2 w=1 v=CHz item=dr8 al={OWN}{x}'), S(f'len=1 w=1 v=LHz item=dr24 al=itemd,init,move,wavail,drop{x}'), S(f'len=3 v=CHz item=cp3 al=item,init,geti,move,slice,peeka{x}'), S(f'len=3 v=CHz item=cp1 al=item,init,geti,move{x}'), S(f'len=3 item=dr8 v=CHz,CHn al=itemd,init,clone1{x}')]
    q += [S(f'len=2 v=CSz item=dr8 al=itemd,pushi,move,drop,resplit{x}'), S(f'len=3 v=CHz item=dr8 w=1 al=itemd,pushi,move,detw,drop{x}')]
    if T: q += [S(f'len=4 v=CHz item=dr8 al={OWN}{x}'), S(f'len=5 v=CHz item=dr8 al=itemd,init,move,drop{x}'), S(f'len=3 w=1 v=CHz item=dr8 al={OWN}{x}'), S(f'len=4 v=CSz item=dr8 al=itemd,pushi,move,drop,resplit{x}'), S(f'len=4 v=CHz,CHn,LHz item=dr8 al=itemd,init,clone1,move{x}')]
    return q
def det(T, x=''):
    q = [S(f'len=3 al=item,slice,zc,peeka,pwork,cwork,over,reset,drop,detc,detp,set,dreset{x}'), S(f'len=2 w=1 al=item,slice,wavail,over,reset,drop,detw,detc,detp,set,dreset{x}'), S(f'len=3 w=1 al=item,slice,wavail,over,reset,drop,detw,set,dreset{x}'), S(f'len=1 w=1 al=item,slice,detw,detp,detc,set,dreset,drop{x}')]
    if T: q += [S(f'len=4 al=item,slice,peeka,pwork,cwork,reset,detc,detp,set,dreset{x}'), S(f'len=3 w=1 al=item,slice,wavail,detw,detp,detc,noadv0{x}'), S(f'len=4 w=1 al=item,slice,detw,set,dreset,noadv0{x}'), S(f'len=5 al=item,slice,detc,detp,set,dreset{x}'), S(f'len=3 w=1 al=item,slice,reset,detw,detc,dreset,set,noadv0{x}'), S(f'len=3 w=1 al=item,slice,reset,detw,detp,detc,dreset,set,noadv0{x}')]
    return q
def variants(T, x=''):
    """the same history on every storage, on detached and on polled iterators, in lock step"""
    q = [S(f'len=3 v={V4} al=item,slice,zc,peeka,init,copy1,clone1,clones,pushc,pwork,cwork,over,mul,reset,drop,detc,detp,set,dreset{x}'), S(f'len=2 v={V4} w=1 al=item,slice,zc,peeka,wavail,copy1,clone1,clones,pushc,over,reset,drop,detw,set,dreset{x}'), S(f'len=3 v={V4} item=dr8 al=itemd,clone1,clones,pushc,pushci,init,geti,move,drop,reset,cwork{x}'), S(f'len=1 v={V4} al=item,slice,peeka,over{x}'), S(f'len=3 v={V4} w=1 al=item,slice,reset,noadv0{x}')]
    q += [S(f'len=3 v=CH,CH.d,CH.p al={A2}{x}'), S(f'len=2 v=CH,CH.d,CH.p w=1 al={A3}{x}'), S(f'len=3 v=CH,CH.d,CH.p item=dr8 al=itemd,geti,pushc,clones,move,pushi{x}'), S(f'len=3 v=CS,CS.d,LS.d,LH.d al=item,slice,pwork,cwork,reset{x}'), S(f'len=2 v=CH,CH.p,LH.d,CS.d w=1 al=item,slice,wavail,peeka,reset{x}')]
    if T: q += [S(f'len={n} v={V4} al={A2},detc,detp,set,dreset{x}') for n in (4, 5)] + [S(f'len=3 v={V4} w=1 al={A3},detw,set,dreset,noadv0{x}'), S(f'len=4 v={V4} w=1 al=item,slice,reset,noadv0{x}'), S(f'len=3 v=CH,CH.d,CH.p w=1 al=item,slice,zc,peeka,wavail,over,reset{x}'), S(f'len=5 v=CH,CH.d,CH.p al=item,slice,peeka,pwork,cwork,reset{x}'), S(f'len=4 v=CH,CH.d,CH.p al={A2}{x}')]
    return q
def resplit(T, x=''):
    q = [S(f'len=3 v={v} al=item,slice,peeka,drop,resplit,over,reset{x}') for v in ('CS', 'LS')] + [S(f'len=2 v=CS,LS w=1 al=item,slice,peeka,drop,resplit,over,reset{x}'), S(f'len=2 v=CS item=dr8 al={OWN},resplit{x}'), S(f'len=2 w=1 v=CS item=dr8 al=itemd,init,move,drop,resplit{x}')]
    if T: q += [S(f'len=3 v=CS item=dr8 al={OWN},resplit{x}'), S(f'len=3 v=CS al=item,drop,resplit2{x}'), S(f'len=3 w=1 v=CS al=item,slice,drop,resplit,noadv0{x}'), S(f'len=4 v=CS al=item,slice,drop,resplit,noadv0{x}')]
    return q
F2 = 'item,slice,zc,peeka,over,copy1,clone1,clones,pushc,pwork,cwork,geti'
def asy(T, x=''):
    """futures of every kind on one stage against one kind on the others, every cancellation point"""
    q = [S(f'len=3 asplit=1 al={F2},{f}{x}') for f in ('fp', 'fc')] + [S(f'len=2 asplit=1 al={F2},reset,drop,{f}{x}') for f in ('fp', 'fc')] + [S(f'len=2 asplit=1 al=item,slice,peeka,futs,reset,conv{x}')]
    q += [S(f'len=1 w=1 asplit=1 al={F2},wavail,{f}{x}') for f in ('fp', 'fw', 'fc')] + [S(f'len=2 w=1 asplit=1 al=item,slice,wavail,{f}{x}') for f in ('fp', 'fw', 'fc')] + [S(f'len=3 asplit=1 item=dr8 al=itemd,clone1,clones,pushc,geti,move,drop,{f}{x}') for f in ('fp', 'fc')]
    q += [S(f'len=2 asplit=1 item=ds12 al=itemd,clone1,clones,pushc,geti,move,drop,futs{x}'), S(f'len=2 v=BS asplit=1 item=dr8 al=itemd,pushc,clones,futs,drop{x}'), S(f'len=2 w=1 asplit=1 al=item,fw,adet,detw,detc,drop{x}')]
    if T: q += [S(f'len=4 asplit=1 al={F2},{f}{x}') for f in ('fp', 'fc')] + [S(f'len=2 asplit=1 al={F2},futs{x}')] + [S(f'len=2 w=1 asplit=1 al={F2},wavail,{f}{x}') for f in ('fp', 'fw', 'fc')] + [S(f'len=3 w=1 asplit=1 al=item,slice,wavail,{f}{x}') for f in ('fp', 'fw', 'fc')] + [S(f'len=3 asplit=1 item=dr8 al=itemd,clone1,clones,pushc,futs,geti,move,drop{x}'), S(f'len=2 w=1 asplit=1 item=dr8 al=itemd,clone1,clones,pushc,fc,geti,move,drop{x}'), S(f'len=2 w=1 asplit=1 al=item,slice,wavail,fw,adet,detw,detc,drop{x}'), S(f'len=3 v=BS asplit=1 item=dr8 al=itemd,clone1,clones,pushc,futs,geti,move,drop{x}'), S(f'len=3 asplit=1 al=item,slice,futs,wakers,conv,reset{x}')]
    return q
def asyl(T, x=''):
    q = [S(f'len=2 asplit=1 al={F2},drop,{f}{x}') for f in ('fp', 'fc')] + [S(f'len=2 w=1 asplit=1 al=item,slice,{f}{x}') for f in ('fw', 'fc')] + [S(f'len=2 asplit=1 item=dr8 al=itemd,clone1,clones,pushc,geti,move,drop,futs{x}')]
    if T: q += [S(f'len=3 asplit=1 al={F2},{f}{x}') for f in ('fp', 'fc')] + [S(f'len=2 w=1 asplit=1 al={F2},wavail,{f}{x}') for f in ('fp', 'fw', 'fc')] + [S(f'len=3 asplit=1 item=dr8 al=itemd,clone1,clones,pushc,geti,move,drop,{f}{x}') for f in ('fp', 'fc')]
    return q

PX = 'item,slice,sla,init,initc,pushc,geti,get1,work1,slx,zc'
CX = 'item,slice,sla,peek1,popm,copy1,clones,work1,slx,zc'
def conc2(T, x=''):
    q = [N(f'len=2 p=4:item c=4:item{x}'), N(f'len=3 p=3:item,slice c=3:item,slice{x}'), N(f'len=3 p=2:{PX} c=2:{CX}{x}'), N(f'len=3 p=3:item,slice,sla,init,initc,geti,get1,slx c=3:item{x}'), N(f'len=3 p=2:item,slice,get1 c=3:item,slice,sla,peek1,copy1,clones,work1,slx,zc{x}'), N(f'len=3 p=3:item,slice,hold,avail c=3:item,slice,hold,avail{x}'),
         N(f'len=4 p=3:item,slice,sla,slm c=3:item,slice,sla,slm{x}'), N(f'len=3 item=dr8 p=2:item,slice,init,initc,geti c=3:item,slice,peek1,clones{x}'), N(f'len=3 p=3:item,avail c=4:item,avail,reset{x}'), N(f'len=3 p=3:item,avail,reset c=3:item,avail,reset{x}'), N(f'len=4 p=3:item,det,avail,slice c=3:item,det,avail,slice{x}'), N(f'v=CS len=3 p=3:item,slice c=3:item{x}'), N(f'v=LS len=2 p=2:item c=2:item sc=1{x}') if False else N(f'len=3 p=2:item,drop,alive,avail c=2:item,drop,alive,avail{x}'),
         N(f'len=4 p=3:item,slice c=3:item,slice pre=5,5,3{x}') if False else N(f'len=4 p=3:item,slice c=3:item,slice pre=5,0,3{x}')]
    q += [N(f'len=3 p=2:item,slice,zc,wait c=3:item,zc,sla,wait{x}'), N(f'len=3 p=3:item,wait,drop c=3:item,wait,drop,reset{x}')]
    S3 = 'item,slice3,clones3,zc3,slx3,sla'   # three slots around the physical end: 1+2 and 2+1
    q += [N(f'len=4 p=2:item,slice3,pushc3,initc3,zc3,slx3 c=2:{S3} pre=3,0,3{x}'), N(f'len=4 p=3:item,slice3 c=2:{S3} pre=2,0,2{x}'), N(f'len=5 p=3:item,slice3 c=2:{S3} pre=6,0,4{x}'), N(f'len=4 item=dr8 p=2:item,slice3,initc3 c=2:item,slice3 pre=3,0,3{x}')]
    if T: q += [N(f'len=5 p=4:item,slice3,sla c=3:{S3} pre=6,0,4{x}'), N(f'len=4 p=3:item,slice3,pushc3,initc3,zc3,slx3 c=3:{S3} pre=3,0,3{x}')]
    if T: q += [N(f'len=4 p=3:item,wait,det,slice,reset c=3:item,det,wait,slice,reset{x}'), N(f'len=3 p=4:item,slice,wait c=4:item,slice,wait{x}')]
    if T: q += [N(f'len=3 p=5:item,slice c=5:item,slice{x}'), N(f'len=3 item=dr8 p=3:item,slice,init,initc,geti c=3:item,slice,peek1,clones{x}'), N(f'len=3 p=4:item,avail c=4:item,avail,reset{x}'), N(f'len=5 p=3:item,slice,slice3,sla c=3:item,slice,slice3,sla pre=3,0,3{x}'), N(f'len=2 p=7:item c=7:item{x}'), N(f'len=3 p=3:{PX} c=2:{CX}{x}'), N(f'len=3 p=2:{PX} c=3:{CX}{x}'), N(f'len=4 p=4:item,slice,det,avail c=4:item,slice,det,avail{x}'), N(f'len=3 p=4:item,hold,sla c=4:item,hold,sla{x}'), N(f'len=4 p=4:item,slice,avail c=4:item,slice,avail,reset{x}')]
    return q
def conc3(T, x=''):
    q = [N(f'len=2 w=1 p=3:item q=3:item c=3:item{x}'), N(f'len=3 w=1 p=2:item,slice,sla q=2:item,slice,sla,hold c=2:item,slice,sla pre=2,1,0{x}'), N(f'len=3 w=1 p=2:item,slice,avail q=2:item,slice,avail c=2:item,slice,avail{x}'), N(f'len=3 item=dr8 w=1 p=2:item,init,geti q=2:item,slice c=2:item,peek1,slice{x}'), N(f'len=3 w=1 p=2:item,det q=3:item,det,avail,sla c=2:item,det pre=2,0,0{x}'),
         N(f'len=3 w=1 p=2:item q=2:item,reset,avail c=2:item,reset pre=2,1,0{x}'), N(f'len=3 w=1 p=2:item,drop,alive q=2:item,drop,alive,alive2 c=1:item,drop,alive,alive2 pre=1,0,0{x}'), N(f'v=CS len=3 w=1 p=2:item,slice q=2:item,slice c=2:item,slice{x}'), N(f'len=2 w=1 p=2:item q=3:item c=2:item pre=1,0,0{x}'), N(f'len=4 w=1 p=2:item,slice3 q=2:item,slice3 c=1:item,slice3 pre=3,3,3{x}'), N(f'len=4 w=1 p=2:item,slice3 q=1:slice3 c=2:item,slice3 pre=5,5,2{x}')]
    q += [N(f'len=3 w=1 p=2:item,wait q=2:item,wait c=2:item,wait{x}'), N(f'len=3 w=1 p=2:item,wait,det q=2:item,wait,det c=2:item,wait,det{x}')]
    if T: q += [N(f'len=3 w=1 p=2:item,slice,wait q=2:item,slice,wait c=2:item,slice,wait{x}'), N(f'len=4 w=1 p=3:item,slice3 q=2:item,slice3,sla c=2:item,slice3 pre=5,4,3{x}'), N(f'len=3 w=1 p=3:item,slice q=3:item,slice c=3:item,slice{x}'), N(f'len=4 w=1 p=3:item,slice q=3:item,slice,det c=3:item,slice{x}'), N(f'len=2 w=1 p=4:item q=4:item c=4:item{x}'), N(f'len=3 w=1 p=3:item q=4:item,det,avail c=3:item pre=2,0,0{x}'), N(f'len=3 item=dr8 w=1 p=3:item q=3:item c=3:item pre=1,1,0{x}'), N(f'len=3 w=1 p=2:item,avail q=3:item,reset,avail c=3:item,reset,avail pre=2,1,0{x}'), N(f'len=4 w=1 p=3:item,sla q=3:item,sla,hold c=3:item,sla{x}'), N(f'len=3 w=1 p=2:item,slice,init,geti,get1,slx q=2:item,slice,sla,slm c=2:item,slice,peek1,copy1,clones,slx{x}'), N(f'len=3 w=1 p=2:item,drop,alive q=2:item,drop,alive,alive2 c=2:item,drop,alive,alive2 pre=1,0,0{x}')]
    return q
def conca(T, x=''):
    q = [N(f'len=3 asplit=1 p=2:item,slice,pushc,geti,get1,zc,work1,slx c=2:item{x}'), N(f'len=3 asplit=1 p=2:item c=2:item,slice,clones,copy1,clone,peek1,zc,work1,slx{x}'), N(f'len=3 asplit=1 p=2:item,sla c=2:item,sla{x}'), N(f'len=2 w=1 asplit=1 p=1:item q=1:item c=1:item{x}'), N(f'len=2 asplit=1 p=3:item c=3:item{x}'), N(f'len=4 asplit=1 p=2:item,slice3 c=2:item,slice3 pre=3,0,3{x}')]
    if T: q += [N(f'len=3 asplit=1 p=2:item,slice,sla,slm c=2:item,slice,sla,slm{x}'), N(f'len=2 asplit=1 w=1 p=2:item q=2:item c=2:item{x}'), N(f'len=2 asplit=1 p=3:item,avail,get1 c=3:item,avail,copy1{x}')]
    return q
def grow(T):
    """the length of every call while the other threads do more and more"""
    k, k3 = ('2,5,8', '2,4,6') if not T else ('2,6,10,14', '2,4,6,8')
    P1, C1, W1 = 'item,slice,init,initc,initcc,pushc,geti,get1,work1,slx,zc,hold,avail,alive,drop,det', 'item,slice,clone,peek1,popm,copy1,clones,work1,slx,zc,hold,avail,alive,drop,det,reset', 'item,slice,slx,zc,hold,avail,alive,alive2,drop,det,reset'
    q = [N(f'len=17 under=p:{P1} with={k} pre=14,0,0'), N(f'len=17 under=p:{P1} with={k} pre=8,0,0'), N(f'len=17 under=c:{C1} with={k}'), N(f'len=17 under=c:{C1} with={k} pre=4,0,0'), N(f'len=17 under=p:det+avail+drop:3 with={k} pre=9,0,0'), N(f'len=17 under=c:det+avail+reset+drop:3 with={k} pre=4,0,0')]
    q += [N(f'len=17 w=1 under={u} with={k3} pre=8,6,0') for u in (f'q:{W1}', f'c:{C1}', f'p:{P1}')] + [N(f'len=17 w=1 under=q:det+avail+reset+drop:2 with={k3} pre=8,6,0')]
    q += [N(f'len=17 asplit=1 under=p:item,slice,pushc,get1,geti,zc,avail,drop,det with={k} pre=8,0,0'), N(f'len=17 asplit=1 under=c:item,slice,clone,peek1,copy1,clones,zc,avail,drop,det with={k} pre=4,0,0'), N(f'len=17 item=dr8 under=p:item,init,initc,pushc,geti with={k} pre=8,0,0'), N(f'len=17 item=dr8 under=c:item,clone,clones,peek1,popm with={k} pre=4,0,0')]
    return q
UNITS = 'mode=units len=1-20,1000,70000'   # rings of (): items without size
LENS = '150,160,192,200,224,240,250,300,320,384,400,448,500,576,600,640,700,768,800,896,960,1000'
def long(T):
    """rings from 64 slots on: one request of every shape at the ends of the ring and of the request"""
    q = [R('mode=windows v=CH size=1 len=64-130 band=1'), R(f'mode=windows v=LH size=4 len={LENS} band=1'), R('mode=windows v=CH size=1 len=4097,10000 band=1'), R('mode=windows v=CH size=1 len=65537 band=1'), R('mode=windows v=CS,LS size=1,12 len=2-17'), R('mode=windows v=CS,LS size=4 len=256-257 band=1')]
    if T: q += [R('mode=windows v=CH size=1 len=131-600 band=1'), R('mode=windows v=LH size=4 len=64-130 band=3'), R('mode=windows v=LH size=1 len=32768-32769,65535-65537,131073 band=1'), R('mode=windows v=CS,LS size=4 len=256-257 band=4')]
    return q
def big(T):
    """long rings and requests around their ends"""
    q = [R('mode=windows v=CH,LH,CS,LS size=4 len=2-16'), R('mode=windows v=CH size=1,2,3,4,8,12,16 len=2-15'), R('mode=windows v=CH,LH size=1,4 len=127-129,255-257,511-513 band=4'), R('mode=windows v=CH size=1 len=4097,5003,8193 band=3'), R('mode=windows v=LH size=1 len=4099 band=2'), R('mode=windows v=CH size=4 len=1023-1025,2049,4097 band=3'), R('mode=windows v=CH size=16,64 len=1000-1001 band=6'), R('mode=windows v=CH size=1 len=65536 band=1'), R(UNITS), R('mode=windows v=CH,LH size=640 len=2-6,100 band=4')] + long(T)
    if T: q += [R('mode=windows v=CH,LH size=640 len=2-12,1000 band=4'), R('mode=windows v=CH,LH size=1,4,16 len=2-40'), R('mode=windows v=CH,LH size=1,4 len=1023-1025,2047-2049,4095-4097,8191-8193 band=3'), R('mode=windows v=CH size=1,4 len=5003,65535-65537 band=2'), R('mode=windows v=CH size=1 len=1048577 band=1')]
    return q

def table(pid, T):
    """-> (configs, seq mask, conc mask, ring mask)   T: thorough"""
    s, sm, cm, rm = [], None, None, None
    if pid == 'C01':
        sm, rm = [VAL, PANIC], [VAL, PANIC]; cm = ['consumer-value', 'lost', 'panic']
        s += sync2(T) + sync3(T) + own(T) + det(T) + asyl(T)
        s += [S('len=3 w=1 al=item,slice,reset taint=reset')] + [S(f'len=3 v={v} al=item,slice,zc,peeka') for v in ('LH', 'CS', 'LS')] + [S(f'len=3 v={v} w=1 al=item,slice') for v in ('LH', 'CS', 'LS')]
        s += [R('mode=windows v=CH size=4 len=2-24'), R('mode=windows v=CH,LH size=1,4 len=127-129,255-257,511-513 band=4'), R('mode=windows v=LH,CS,LS size=4 len=2-14'), R('mode=windows v=CH size=1 len=4097,5003 band=3')] + long(T)
        s += [N('len=3 p=3:item,slice c=3:item,slice'), N('len=3 w=1 p=2:item,slice q=2:item,slice c=2:item,slice')]
        if T: s += big(T) + conc2(False) + conc3(False)
    elif pid == 'C02':
        sm, cm = [VAL, PANIC], ['consumer-value', 'worker-value', 'lost', 'race-slot', 'race-other', 'panic']
        s += conc2(T) + conc3(T) + conca(T)
        s += [S('len=3 al=item,slice'), S('len=3 w=1 al=item,slice'), S('len=2 asplit=1 al=item,slice,futs'), S('len=3 item=dr8 al=itemd,clone1,init,geti,move')]
    elif pid == 'C03':
        sm, cm = [GRANT, PANIC], ['race-slot', 'race-other', 'overlap', 'panic']
        s += conc2(T) + conc3(T) + conca(T)
        s += [N('len=3 w=1 p=2:item,hold q=3:item,hold c=2:item,hold pre=2,1,0'), N('len=3 w=1 p=2:item,sla q=2:sla c=2:item,sla pre=2,1,0'), S('len=3 w=1 al=item,slice,detw,noadv0'), S('len=3 al=item,slice,detc,detp,noadv0'), S(f'len=3 al={A2}'), S(f'len=2 w=1 al={A3}')]
    elif pid == 'C04':
        sm, cm = [GRANT, OVER, UNDER, INDEX, PUB, ORDER, PANIC], ['granted-beyond-available', 'overlap', 'lost', 'panic']; rm = [GRANT, OVER, UNDER, INDEX, REFUSE, PANIC]
        s += [S('len=3 al=item,detp,preset taint=preset')]
        s += sync2(T) + sync3(T) + det(T) + asyl(T) + [S('len=3 v=CS al=item,slice,over,drop'), S('len=3 v=LH al=item,slice,over,reset'), S('len=3 v=LS w=1 al=item,slice,reset'), S(f'len=3 item=dr8 al={OWN}'), S(f'len=2 w=1 item=dr8 al={OWN}'), S('len=2 v=CS,LS w=1 al=item,slice,peeka,drop,resplit,over,reset')]
        s += [N('len=3 p=3:item,slice c=3:item,slice'), N('len=3 w=1 p=2:item,slice,sla q=2:item,slice,sla,hold c=2:item,slice,sla pre=2,1,0'), N('len=3 w=1 p=2:item q=3:item,det,avail c=2:item pre=2,0,0'), N('len=3 p=3:item,avail c=4:item,avail,reset'), N('len=4 p=3:item,slice,sla c=3:item,slice,sla'), N('len=4 p=3:item,det,avail,slice c=3:item,det,avail,slice')]
        s += [R('mode=windows v=CH,LH size=1 len=2-20'), R('mode=windows v=CH,LH size=1 len=255-257 band=4')] + long(T)
        if T: s += [S('len=4 al=item,detp,preset taint=preset'), S('len=3 w=1 al=item,detp,preset taint=preset'), S('len=16 al=item,slice,over,sparse,noadv0'), S('len=3 v=BS asplit=1 al=item,slice,futs,drop')] + conc2(False) + conc3(True) + own(False)
    elif pid == 'C05':
        sm, cm = [OVER, UNDER, GRANT, REFUSE, REFEFF, RETVAL, PANIC], ['available-over-reports', 'granted-beyond-available', 'refused-value-altered', 'lost', 'panic']
        rm = [OVER, UNDER, GRANT, REFUSE, REFEFF, RETVAL, PANIC]
        s += sync2(T) + sync3(T) + det(T) + asyl(T) + [S(f'len=3 item=dr8 al={OWN}'), S(f'len=2 w=1 item=dr8 al={OWN}'), S('len=2 v=CS,LS w=1 al=item,slice,peeka,drop,resplit,over,reset')] + [S(f'len=3 v={v} al=item,slice,zc,peeka,over,pwork,cwork,mul') for v in ('LH', 'CS', 'LS')]
        s += [N('len=3 p=3:item,slice,avail c=3:item,slice,avail'), N('len=3 w=1 p=2:item,slice,avail q=2:item,slice,avail c=2:item,slice,avail'), N('len=3 w=1 p=2:item q=3:item,det,avail c=2:item pre=2,0,0'), N('len=4 p=3:item,slice,sla,slm c=3:item,slice,sla,slm'), N('len=3 p=3:item,avail c=4:item,avail,reset'), N('len=4 p=3:item,det,avail,slice c=3:item,det,avail,slice'), N('len=3 asplit=1 p=2:item,slice,avail c=2:item,slice,avail')]
        s += [R('mode=windows v=CH,LH size=4 len=2-20'), R('mode=windows v=CH,LH,CS,LS size=4 len=255-257,2-8 band=4')] + long(T)
        if T: s += conc2(False) + conc3(True) + own(False)
    elif pid == 'C06':
        sm = [SLICE, MEM, OOB, WVAL, VAL, INDEX, PANIC]; rm = [SLICE, MEM, OOB, VAL, INDEX, UAF, PANIC]
        s += big(T) + [S(f'len={n} item={it} al=slice,zc,peeka,init,pushc,clones,pwork,cwork,over,mul') for n, it in ((1, 'cp3'), (2, 'cp1'), (3, 'cp3'), (4, 'cp16'), (3, 'cpa'))] + sync2(T) + [S(f'len={n} w=1 al={A3}') for n in (1, 2)] + [S(f'len=3 w=1 al={A3},noadv0')]
        s += [S(f'len=3 item={it} al={OWN}') for it in ('dr8', 'dr24', 'ds12', 'ds24')] + [S('len=3 w=1 al=item,slice,wavail,detw,noadv0'), S('len=3 al=slice,zc,peeka,detp,detc,pwork,cwork'), S('len=4 v=LH,CS,LS al=slice,zc,peeka')] + asyl(T)
        if T: s += sync3(T) + det(T) + own(T) + variants(False)
    elif pid == 'C07':
        sm = [UAF, DFREE, LEAK, BADFREE, ALIVE, OOB, PANIC]; rm = [UAF, DFREE, LEAK, BADFREE, PANIC]
        cm = ['use-after-free', 'double-free', 'leak', 'bad-free', 'race-release', 'dead-peer-view', 'dead-too-early', 'destructor-ledger', 'panic']
        s += [S(f'len=3 v={v} al=item,slice,drop') for v in ('CH', 'LH', 'CS', 'LS')] + [S(f'len=2 v={v} w=1 al=item,drop,detw,detp,detc') for v in ('CH', 'LH', 'CS', 'LS')] + [S('len=3 asplit=1 al=item,futs,drop,conv'), S('len=2 w=1 asplit=1 al=item,fw,drop,adet,detw'), S('len=3 v=BS asplit=1 al=item,futs,drop'), S('len=2 v=BS w=1 asplit=1 al=item,drop,conv item=dr8')]
        s += [S('len=2 v=CS item=dr8 al=itemd,drop,resplit'), S('len=3 v=LS w=1 al=item,drop,resplit'), S('len=1 w=1 al=item,drop'), S('len=3 al=item,drop,conv,detc,detp')] + own(T) + asyl(T) + resplit(T)
        s += [N('len=3 p=2:item,end c=2:item,end'), N('len=3 p=1:drop,item c=1:drop,item'), N('len=2 w=1 p=1:item,end q=1:item,end c=1:item,end'), N('len=3 w=1 p=1:end,drop q=1:end,drop c=1:end,drop'), N('len=3 p=2:item,alive c=2:item,alive'), N('len=3 p=2:item,drop c=2:item,alive,drop'), N('len=3 w=1 p=2:item,drop,alive q=2:item,drop,alive c=1:item,drop,alive pre=1,0,0'), N('len=3 w=1 p=1:item,drop q=2:alive,alive2,item c=2:alive,alive2,item pre=1,1,0'),
              N('len=2 item=dr8 p=1:end,item c=1:end,item'), N('len=2 v=BS asplit=1 p=1:item,end c=1:item,end'), N('len=2 asplit=1 p=1:item,drop c=2:item,drop,alive'), N('len=3 p=2:item,det,drop c=2:item,det,drop'), N('len=3 w=1 p=2:item,drop,alive q=2:item,drop,alive,alive2 c=2:item,drop,alive,alive2 pre=1,0,0'), N('len=3 w=1 p=2:item,det,drop q=2:item,det,drop c=2:item,det,drop'), N('len=3 p=2:item,drop,alive,avail c=2:item,drop,alive,avail')]
        s += [R('mode=ctor n=0-16')]
        if T:
            s += [S('len=3 w=1 al=item,drop,detw,detp,detc,noadv0'), S('len=3 w=1 asplit=1 al=item,fw,drop,adet,detw'), S('len=4 item=dr8 al=itemd,pushi,move,drop'), S('len=3 v=CS item=dr8 w=1 al=itemd,drop,resplit2'), S('len=3 w=1 item=dr8 al=itemd,drop,conv')] + zeroed(T)
            s += [N('len=3 p=4:item,drop,alive c=4:item,drop,alive'), N('len=3 w=1 p=2:item,end,alive q=2:item,end,alive c=2:item,end,alive'), N('len=3 w=1 p=3:item,drop,alive q=2:item,drop,alive,alive2 c=3:item,drop,alive,alive2'), N('len=2 w=1 item=dr8 p=2:item,end q=2:item,end c=2:item,end'), N('len=2 v=BS w=1 asplit=1 p=1:item,end q=1:item,end c=1:item,end')]
            s += [R('mode=ctor')]
    elif pid == 'C08':
        sm = [LEDGER, ZERO, PANIC]; rm = [LEDGER, ZERO, PANIC]; cm = ['destructor-ledger', 'empty-slot-read-or-dropped', 'panic']
        s += own(T) + zeroed(T) + resplit(T) + [S('len=3 item=dr8 w=1 al=itemd,pushc,drop'), S('len=3 item=dr8 al=itemd,pushi,move,reset,drop,cwork'), S('len=3 item=dr8 w=1 al=itemd,reset,detw,drop')]
        s += [S('len=2 w=1 item=dr8 asplit=1 al=itemd,futs,drop'), S('len=3 v=CHn item=dr8 al=itemd,init,move,drop'), S('len=2 v=BS item=dr8 asplit=1 al=itemd,pushc,futs,drop'), S('len=3 v=LHn item=dr8 al=itemd,init,move,drop'), S('len=2 v=LSz item=dr8 al=itemd,init,geti,move,drop')]
        s += [S(f'len=3 asplit=1 item=dr8 al=itemd,clone1,clones,pushc,geti,move,drop,{f}') for f in ('fp', 'fc')] + [S('len=2 asplit=1 item=ds12 al=itemd,clone1,clones,pushc,geti,move,drop,futs'), S('len=2 w=1 asplit=1 item=dr8 al=itemd,move,geti,fc,drop')]
        s += [R('mode=ctor n=0-16'), N('len=3 item=dr8 p=2:item,slice,init,initc,geti c=3:item,slice,peek1,clones'), N('len=3 item=dr8 w=1 p=2:item,init,geti q=2:item,slice c=2:item,peek1,slice')]
        if T: s += [S('len=3 w=1 item=dr8 asplit=1 al=itemd,fp,drop'), S('len=3 w=1 item=dr8 al=itemd,pushi,move,reset,detw,drop'), S('len=3 asplit=1 item=dr8 al=itemd,clones,pushc,geti,move,futs,drop,conv'), R('mode=ctor')]
    elif pid == 'C09':
        sm = [ZERO, VAL, LEDGER, GRANT, REFUSE, OVER, UNDER, INDEX, RETVAL, REFEFF, MEM, VARIANT, CTOR, PANIC, WVAL, SLICE, OOB]; rm = [ZERO, CTOR, LEDGER, VAL, PANIC]
        s += zeroed(T) + [S(f'len=3 item={it} al={OWN} taint=move') for it in ('dr8', 'ds5', 'ds12', 'ds24', 'ds100')] + [S(f'len=2 w=1 item=dr8 al={OWN} taint=move'), S('len=3 item=cpa al=item,init,geti,move taint=move'), S('len=3 v=CHz item=dr8 asplit=1 al=itemd,geti,move,clones,futs,drop'), S('len=2 w=1 v=CHz item=dr8 asplit=1 al=itemd,geti,move,fc,drop')]
        s += [R('mode=ctor n=0-16')]
        if T: s += own(T, ' taint=move') + [S('len=3 w=1 v=CHz item=dr8 asplit=1 al=itemd,geti,move,fc,drop'), R('mode=ctor')]
    elif pid == 'C10':
        sm, cm = [STEPS, LOST, REFUSE, UNDER, PANIC], ['unbounded-steps', 'lost', 'panic']
        for sc in (0, 1):
            s += [N(f'len=2 p=4:item c=4:item sc={sc}'), N(f'len=3 p=3:item,slice c=3:item,slice sc={sc}'), N(f'len=3 w=1 p=2:item,slice q=2:item,slice c=2:item,slice sc={sc}'), N(f'len=3 w=1 p=2:item q=3:item,det,avail c=2:item pre=2,0,0 sc={sc}'), N(f'len=3 p=3:item,det,avail c=3:item,det,avail sc={sc}'),
                  N(f'len=3 p=3:item,avail c=4:item,avail,reset sc={sc}'), N(f'len=3 p=2:item,drop,alive c=2:item,drop,alive sc={sc}'), N(f'len=3 asplit=1 p=2:item c=2:item sc={sc}'), N(f'len=3 p=2:{PX} c=2:{CX} sc={sc}'), N(f'len=3 w=1 p=2:item q=2:item,reset,avail c=2:item,reset pre=2,1,0 sc={sc}'), N(f'len=3 asplit=1 p=2:item,slice,pushc,geti,get1,zc,work1,slx c=2:item sc={sc}'), N(f'len=3 asplit=1 p=2:item c=2:item,slice,clones,copy1,clone,peek1,zc,work1,slx sc={sc}')]
        s += [N(f'len=3 p=2:item,slice,zc,wait c=3:item,zc,sla,wait sc={sc}') for sc in (0, 1)] + [N(f'len=3 w=1 p=2:item,wait,det q=2:item,wait,det c=2:item,wait,det sc={sc}') for sc in (0, 1)]
        s += [N('len=3 w=1 p=2:item,drop,alive q=1:item,drop,alive c=1:item,drop,alive pre=1,0,0'), N('len=4 p=3:item,slice,sla,hold c=3:item,slice,sla,hold'), N('len=3 w=1 p=1:item,end q=1:item,end c=1:item,end'), N('len=4 p=3:item,slice,sla,slm c=3:item,slice,sla,slm sc=1'), N('len=3 item=dr8 p=2:item,slice,init,initc,geti c=3:item,slice,peek1,clones sc=1')]
        s += grow(T) + sync2(T) + det(T) + asyl(T) + [S(f'len={n} w=1 al={A3}') for n in (1, 2)] + [S(f'len=3 item=dr8 al={OWN}')]
        if T:
            s += sync3(T)
            for sc in (0, 1): s += conc2(T, f' sc={sc}') + conc3(T, f' sc={sc}') + [N(f'len=3 asplit=1 w=1 p=2:item q=2:item c=2:item sc={sc}')]
    elif pid == 'C11':
        sm = [INDEX, PUB, OVER, UNDER, GRANT, REFUSE, VAL, ORDER, PANIC, SLICE, WVAL, MEM]
        tt = ' taint=reset'
        s += sync2(T, tt) + sync3(T, tt) + det(T, tt) + asyl(T, ',reset' + tt) + [S('len=4 w=1 al=item,slice,reset,noadv0' + tt)]
        s += [S(f'len=3 v={v} w=1 al=item,slice,reset' + tt) for v in ('LH', 'CS', 'LS')] + [S(f'len=3 v={v} al=item,slice,reset,peeka' + tt) for v in ('LH', 'CS', 'LS')] + [S('len=3 asplit=1 al=item,slice,futs,reset,conv' + tt), S('len=2 w=1 asplit=1 al=item,futs,reset' + tt), S('len=3 w=1 item=dr8 al=itemd,clone1,reset,drop' + tt), S('len=3 w=1 al=item,slice,reset,drop,noadv0' + tt), S(f'len=3 item=dr8 al={OWN}' + tt), S(f'len=2 w=1 item=dr8 al={OWN}' + tt), S('len=2 v=CS,LS w=1 al=item,slice,peeka,drop,resplit,over,reset' + tt)]
        s += [N('len=3 p=3:item,avail c=4:item,avail,reset'), N('len=3 w=1 p=2:item q=3:item,reset,avail c=2:item,reset pre=2,0,0'), N('len=3 p=3:item,slice,avail c=3:slice,sla,reset'), N('len=3 p=3:item,avail,reset c=3:item,avail,reset')]
        cm = ['race-slot', 'overlap', 'granted-beyond-available', 'available-over-reports', 'consumer-value', 'worker-value', 'lost', 'panic']
        if T:
            s += [S('len=5 w=1 al=item,slice,reset,noadv0' + tt), S('len=4 w=1 al=item,slice,reset,detw,dreset,noadv0' + tt), S('len=3 w=1 asplit=1 al=item,futs,reset,noavail' + tt), S('len=4 asplit=1 al=item,slice,futs,reset,conv' + tt)]
            s += [N('len=4 p=4:item,slice,avail c=4:item,slice,avail,reset'), N('len=3 w=1 p=3:item q=3:item,reset,avail c=3:item,reset pre=2,0,0'), N('len=3 w=1 p=2:item,avail q=3:item,reset,avail c=3:item,reset,avail pre=2,1,0')]
    elif pid == 'C12':
        sm = [INDEX, PUB, OVER, UNDER, GRANT, REFUSE, SLICE, VAL, MEM, ORDER, WVAL, PANIC]
        tt = ' taint=det'
        s += det(T, tt) + [S('len=4 w=1 al=item,detw,set,dreset,noadv0' + tt), S('len=4 al=item,detc,set,dreset,cwork,over' + tt), S('len=4 al=item,slice,detp,set,pwork,over' + tt)]
        s += [S('len=3 w=1 al=item,detw,detp,detc,noadv0,set' + tt)] + [S(f'len=3 v={v} w=1 al=item,slice,detw,set,dreset,noadv0' + tt) for v in ('LH', 'CS', 'LS')] + [S('len=3 asplit=1 al=item,detc,detp,adet,conv' + tt), S('len=2 w=1 asplit=1 al=item,detw,adet,futs' + tt), S('len=3 w=1 asplit=1 al=item,detw,adet,convw,drop' + tt), S('len=3 item=dr8 w=1 al=itemd,detw,set,dreset' + tt), S('len=5 al=item,detc,set,dreset,noadv0,cwork' + tt), S('len=3 item=dr8 al=itemd,clone1,init,move,reset,drop,detc,detp,set,dreset,cwork' + tt), S('len=2 asplit=1 al=item,slice,futs,adet,detp,detc,drop' + tt), S('len=2 v=CS,LS w=1 al=item,detw,detc,drop,resplit,reset' + tt)]
        s += [N('len=3 w=1 p=2:item,det q=3:item,det,avail,sla c=2:item,det pre=2,0,0'), N('len=4 p=3:item,det,avail,slice c=3:item,det,avail,slice'), N('len=3 w=1 p=2:item,det,drop q=2:item,det,drop c=2:item,det,drop'), N('len=3 asplit=1 p=2:item,det c=3:item,det'), N('len=4 p=3:item,det,wait,avail c=3:item,det,wait,reset'), N('len=3 w=1 p=2:item,wait,det q=2:item,wait,det c=2:item,wait,det')]
        cm = ['race-slot', 'overlap', 'granted-beyond-available', 'available-over-reports', 'consumer-value', 'worker-value', 'lost', 'published-index', 'panic']
        if T:
            s += [S('len=4 w=1 al=item,slice,detw,set,dreset,noadv0,wavail' + tt), S('len=5 w=1 al=item,detw,set,dreset,noadv0' + tt), S('len=7 al=item,detc,set,dreset,noadv0,cwork' + tt), S('len=4 w=1 al=item,detw,detp,detc,noadv0' + tt), S('len=3 w=1 asplit=1 al=item,detw,adet,futs' + tt), S('len=8 al=item,slice,detc,set,dreset,sparse,noadv0' + tt)]
            s += [N('len=4 w=1 p=2:item,slice q=4:item,slice,det,avail c=2:item,slice'), N('len=4 p=4:item,slice,det,avail c=4:item,slice,det,avail')]
    elif pid == 'C13':
        sm = [VARIANT, PANIC]
        s += variants(T) + [S('len=3 v=CHz,LHz,CSz,LSz item=dr8 al=itemd,clone1,clones,pushc,pushci,init,geti,move,drop,reset,cwork,over'), S(f'len=2 v={V4} w=1 al=item,slice,detw,detc,detp,set,dreset,noadv0'), S(f'len=4 v={V4} al=item,slice,peeka,zc,over,mul,pwork,cwork')]
        s += [S(f'len={n} v={V4} item={it} al=item,slice,zc,peeka,reset,over') for n, it in ((3, 'cp1'), (5, 'cp1'), (3, 'cp16'))] + [S(f'len=3 v={V4} item={it} w=1 al=item,slice,reset,noadv0') for it in ('cp1', 'cp16')]
        s += [S('len=3 v=CH,BS asplit=1 al=item,slice,futs,drop'), S('len=2 v=CH,BS asplit=1 item=dr8 al=itemd,clone1,clones,pushc,geti,move,futs,drop'), S('len=3 v=LH,LH.d,CS.p al=item,slice,zc,peeka'), S('len=3 v=CHn,LHn,CSn,LSn item=dr8 al=itemd,pushi,move,drop'), S('len=2 v=CS,LS w=1 al=item,slice,peeka,drop,resplit,over,reset'), S('len=3 v=CH,LH,CS item=ds12 al=itemd,clone1,clones,pushc,pushci,init,geti,move,drop')]
        if T: s += [S('len=2 v=CH,BS w=1 asplit=1 al=item,slice,futs,noavail'), S('len=3 v=CH,BS w=1 asplit=1 al=item,drop,adet,detw'), S(f'len=4 v={V4} item=dr8 al=itemd,init,move,drop,clone1'), S(f'len=4 v={V4} w=1 al=item,detw,set,dreset,noadv0')]
    elif pid == 'C14':
        sm = [POLL, PENDFX, LEDGER, VAL, RETVAL, INDEX, PUB, MEM, VARIANT, GRANT, REFUSE, PANIC, REFEFF, SLICE, OVER, UNDER, WVAL, ZERO]
        tt = ' taint=fut'
        s += asy(T, tt) + [S('len=3 v=CHz asplit=1 item=dr8 al=itemd,geti,futs,move' + tt), S('len=2 asplit=1 item=ds24 al=itemd,clone1,clones,pushc,geti,move,drop,futs' + tt), S('len=3 v=BS asplit=1 item=dr8 al=itemd,pushc,futs,drop' + tt, 'n'), S(f'len=2 w=1 v=BS asplit=1 al=item,slice,wavail,fw,drop' + tt, 'n')]
        s += [S(f'len=3 v=CH,CH.p al={A2}'), S(f'len=2 v=CH,CH.p w=1 al={A3}'), S('len=3 v=CH,CH.p item=dr8 al=itemd,pushc,clones,geti,move,pushi'), S('len=3 v=CH,CH.p item=ds12 al=itemd,pushc,clones,geti,move,pushi')]
        if T: s += [S('len=5 v=CH,CH.p al=item,slice,peeka,zc,pwork,cwork'), S('len=4 v=CH,CH.p w=1 al=item,slice,wavail,noadv0'), S('len=3 w=1 v=BS asplit=1 item=dr8 al=itemd,fp,drop' + tt, 'n')]
    elif pid == 'C15':
        sm, cm = [WAKE, PANIC], ['not-woken', 'panic']
        s += asy(T) + [S('len=2 asplit=1 al=item,slice,futs,wakers'), S('len=3 asplit=1 al=item,slice,fp,wakers'), S('len=3 asplit=1 al=item,slice,fc,wakers'), S('len=2 asplit=1 al=item,futs,reset,drop,wakers'), S('len=1 w=1 asplit=1 al=item,fw,adet,detw,wakers'), S('len=2 v=BS asplit=1 al=item,slice,futs,wakers'), S('len=1 w=1 asplit=1 al=item,futs,wakers')]
        s += conca(T) + [N('len=3 asplit=1 p=2:item c=2:item'), N('len=3 asplit=1 p=2:item,slice c=2:item,slice'), N('len=2 asplit=1 p=2:sla,item c=2:sla,item'), N('len=3 w=1 asplit=1 p=2:item q=2:item c=1:item'), N('len=2 asplit=1 p=2:item c=2:item pre=1,0,1'), N('len=3 asplit=1 item=dr8 p=2:item c=2:item pre=2,0,2'), N('v=BS len=3 asplit=1 p=2:item c=2:item'), N('len=3 asplit=1 p=2:item,slice,sla,slm c=2:item,slice,sla,slm'), N('len=2 asplit=1 w=1 p=2:item q=2:item c=2:item polls=2')]
        if T:
            s += [S('len=3 asplit=1 al=item,slice,futs,wakers'), S('len=2 w=1 asplit=1 al=item,futs,wakers,noavail'), S('len=2 w=1 asplit=1 al=item,fw,adet,detw,detc,wakers'), S('len=3 v=BS asplit=1 al=item,slice,futs,wakers'), S('len=3 asplit=1 al=item,futs,reset,drop,wakers'), S('len=4 asplit=1 al=pwork,zc,peeka,item,futs,wakers')]
            s += [N('len=3 asplit=1 p=3:item,slice,sla c=3:item,slice,sla'), N('len=2 asplit=1 p=4:item c=4:item'), N('len=3 w=1 asplit=1 p=2:item,slice q=2:item,slice c=2:item,slice polls=2'), N('len=2 w=1 asplit=1 p=2:item q=2:item c=2:item pre=1,0,0')]
    elif pid == 'C16':
        s += [('types', 'a', ''), ('types', 'v', ''), ('types', 'n', '')]
    elif pid == 'C17':
        sm = None; rm = None
        v = lambda a: S(a + ' page=1', 'v')
        OV = 'itemd,clone1,clones,pushc,pushci,init,geti,move,drop,fault,over,reset,cwork'
        s += [v(f'len={n} item=cpv al={A2}') for n in (1, 2, 3)] + [v('len=5 item=cpv al=slice,zc,peeka,over'), v('len=3 v=CH,LH item=cpv al=item,slice,detc,detp,reset,drop,set,dreset'), v('len=3 w=1 item=cpv al=item,slice,detw,noadv0'), v(f'len=2 w=1 item=cpv al={A3}'), v(f'len=3 v=CHz item=drv al={OV}'), v(f'len=3 item=drv al={OV}'), v(f'len=2 w=1 item=drv al={OV}'),
              v('len=3 v=LHn item=drv al=itemd,pushi,move,drop'), v('len=3 v=LHz item=drv al=itemd,init,geti,move,drop'), v('len=3 asplit=1 item=drv al=itemd,futs,drop'), v('len=2 asplit=1 item=cpv al=item,slice,futs'), v(f'len=3 v=CH,CH.d,CH.p item=cpv al=item,slice,peeka'), v('len=2 asplit=1 item=drv al=itemd,clone1,clones,pushc,geti,move,drop,fp'), v('len=2 w=1 item=cpv al=item,slice,wavail,over,reset,detw,set,dreset')]
        s += [R('mode=ctor n=0-5,4095-4097,8191-8193', 'v'), R('mode=units len=4096,8192', 'v')] + [R(f'mode=windows v=CH len=4096 band=8 size={x}', 'v') for x in (1, 2, 3, 5, 8, 12, 16)] + [R('mode=windows v=LH len=4096 band=8 size=1,7', 'v'), R('mode=windows v=CH len=8192,12288 band=6 size=1', 'v'), R('mode=windows v=CH len=8192 band=6 size=4', 'v'), R('mode=windows v=LH len=4096 band=6 size=8,16', 'v')]
        nv = lambda a: N('page=1 ' + a, 'v')
        s += [nv(a) for a in ('len=2 p=3:item c=3:item', f'len=3 p=2:{PX} c=2:item,slice', f'len=3 p=2:item,slice c=2:{CX}', 'len=2 w=1 p=2:item q=2:item c=2:item', 'len=3 p=1:item,end c=1:item,end', 'len=3 p=2:item,drop,alive c=2:item,drop,alive', 'len=3 w=1 p=1:end,drop q=1:end,drop c=1:end,drop', 'len=2 asplit=1 p=2:item c=2:item', 'item=drv len=2 p=2:item,end c=2:item,end', 'len=3 w=1 p=2:item,slice q=2:item,slice c=2:item,slice', 'len=3 w=1 p=2:item,sla q=2:sla c=2:item,sla pre=2,1,0')]
        if T:
            s += [R('mode=ctor', 'v')] + [R(f'mode=windows v=CH len=4096 size={x}', 'v') for x in range(1, 17)] + [R(f'mode=windows v=CH len=8192,12288 band=12 size={x}', 'v') for x in (1, 2, 4, 7)]
            s += [v(f'len=4 item=cpv al={A2}'), v('len=2 w=1 item=cpv al=item,slice,wavail,over,reset,drop,detw,detc,detp,set,dreset'), v('len=4 v=CH,LH item=cpv al=item,slice,detc,detp,reset'), v(f'len=3 w=1 item=cpv al={A3},noadv0'), v('len=5 v=CHz item=drv al=itemd,init,move,drop'), v('len=3 w=1 item=drv al=itemd,init,move,drop'), v('len=3 asplit=1 item=cpv al=item,slice,futs')]
            s += [nv(a) for a in ('len=3 p=3:item,slice c=3:item,slice', 'len=3 w=1 p=2:item q=3:item,det,avail c=2:item pre=2,0,0', 'item=drv len=2 p=4:item c=4:item', 'len=3 p=3:item,avail c=4:item,avail,reset')]
    elif pid == 'C18':
        sm = [SPLIT, CTOR, VAL, GRANT, OVER, UNDER, INDEX, BLEN, REFUSE, PANIC, ORDER, PUB]; rm = None
        tt = ' taint=resplit'
        s += [R('mode=ctor'), R('mode=ctor', 'n')]
        s += resplit(T, tt) + [S(f'len={n} v={v} al=item,slice,drop,resplit,noadv0' + tt) for n in (1, 2) for v in ('CS', 'LS')] + [S(f'len={n} w=1 v={v} al=item,slice,drop,resplit,noadv0' + tt) for n in (1, 2) for v in ('CS', 'LS')] + [S('len=3 w=1 v=CS al=item,drop,resplit,noadv0,noavail' + tt), S('len=2 w=1 v=CS al=item,reset,detw,drop,resplit' + tt), S('len=2 v=CS al=item,detc,detp,set,dreset,drop,resplit' + tt), S('len=2 v=LS al=item,drop,resplit2' + tt)]
        s += [S('len=2 v=BS asplit=1 al=item,futs,drop,resplit' + tt, 'n'), S('len=2 w=1 v=BS asplit=1 al=item,futs,drop,resplit' + tt, 'n')]
        s += [S(f'len={n} v={v} al=item,slice') for n in (1, 2, 3, 4, 5) for v in ('CH', 'LH', 'CHn', 'CHz')] + [S(f'len={n} v={v} al=item,slice') for n in (2, 4) for v in ('CS', 'LS')]
        if T:
            s += [S('len=3 w=1 v=LS al=item,slice,drop,resplit,noadv0' + tt), S('len=3 w=1 v=CS al=item,reset,detw,drop,resplit,noadv0' + tt), S('len=3 v=BS asplit=1 al=item,futs,drop,resplit2' + tt, 'n'), S('len=4 w=1 v=CS al=item,drop,resplit,noadv0,noavail' + tt)]
    if rm is not None and pid in ('C01', 'C04', 'C05', 'C09', 'C18'): s += [R(UNITS)] + ([R(UNITS, 'n')] if pid == 'C18' else [])
    if pid == 'C18': s += [R(f'mode=ctor n={n}') for n in ('127-129,255-257,511-513', '1000,4095-4097', '65535-65537') + (('100000',) if T else ())]
    # the crate without `alloc`: its own splits, its own reference to the buffer
    sm_ = {'C01': ['item,futs', 'item,fw,adet'], 'C04': ['item,slice,reset,drop', 'item,futs,drop'], 'C07': ['item,futs,drop', 'item,drop,adet,detw'], 'C13': ['item,slice,reset', 'item,slice'], 'C15': ['item,futs,wakers', 'item,fw,adet']}.get(pid)
    if pid == 'C13': s += [S(f'len={n} v=CS,LS al=item,slice,zc,peeka,reset,over,drop', 'n') for n in (2, 3, 5)] + [S('len=2 v=CS,LS w=1 al=item,slice,reset,over,drop,detw', 'n')]
    elif sm_:
        s += [S(f'len=3 v=BS asplit=1 al={sm_[0]}', 'n'), S(f'len=2 w=1 v=BS asplit=1 al={sm_[1]}', 'n')] + [S(f'len=3 v={v} al=item,slice,drop', 'n') for v in ('CS', 'LS')] + [S(f'len=2 v={v} w=1 al=item,slice,drop', 'n') for v in ('CS', 'LS')]
        if T: s += [S(f'len=2 w=1 v=BS asplit=1 al={"item,futs,drop"}', 'n')]
    if pid == 'C08': s += [S('len=3 v=BS item=dr8 asplit=1 al=itemd,futs,drop', 'n'), S('len=2 v=CS,LS item=dr8 al=itemd,pushc,clones,init,move,drop', 'n'), S('len=2 v=CS,LS w=1 item=dr8 al=itemd,init,drop', 'n')]
    if pid in ('C02', 'C03', 'C07', 'C15'):
        s += [N('len=2 v=BS asplit=1 p=2:item c=2:item', 'n'), N('len=2 w=1 v=BS asplit=1 p=1:item,end q=1:item,end c=1:item,end', 'n')]
        if pid != 'C15': s += [N('len=3 v=CS p=2:item,alive,drop c=2:item,alive,drop', 'n'), N('len=3 w=1 v=CS p=2:item,slice q=2:item c=2:item,slice', 'n')]
        if T: s += [N('len=3 v=BS asplit=1 p=2:item,slice c=2:item,slice', 'n'), N('len=2 w=1 v=BS asplit=1 p=2:item q=2:item c=2:item', 'n')]
    seen, u = set(), []
    for c in s:
        if c not in seen: seen.add(c); u.append(c)
    return u, sm, cm, rm

NOTE = {
    'seq': 'explicit-state breadth-first search over the real objects: every public operation from every reachable memory image, compared with a reference queue; a state is a distinct (reference state, position) with a distinct image behind it',
    'conc': 'stateless exploration of all schedules and all reads-from choices of the real code under the C11 view-based memory model, pruned by configuration hash',
    'ring': 'complete product of ring positions x request sizes x operations on real buffers (mode=windows) and of constructors x lengths x splits (mode=ctor)',
    'types': 'reachable typestate graph of all safe wrappers; rustc decides Send/Sync of each reached type',
}
ASSUME = {
    'seq': 'item values are a function of position mod 2*len; requests of 0 slots are left unspecified; histories follow the documented rules for unsafe operations (advance <= available, initialised slots for plain pushes)',
    'conc': 'C11 without load buffering; one location has one writer or is written by RMWs only; bounded number of operations per thread as stated in each configuration',
    'ring': 'nothing else is in flight while a window is examined',
    'types': 'item classes: Send+Sync, Send only, Sync only, neither, and types without any bound',
}

def key(c):
    """of a configuration in costs.json"""
    return ' '.join([c[0], c[1]] + [x for x in c[2].split() if x.split('=')[0] not in ('max', 'taint', 'known')])
def costs():
    try: return json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'costs.json')))
    except (OSError, ValueError): return {}
def jobs(pid, tier):
    T = tier == 'thorough'
    s, sm, cm, rm = table(pid, T)
    if not T:   # ... and as many of the thorough configurations, the short ones first, as fit into half a minute more on 8 cores
        cost, room = costs(), 200
        for t, c in sorted((cost.get(key(c), 99), c) for c in table(pid, True)[0] if c not in s):
            room -= t
            if room < 0 or t > 30: break
            s.append(c)
    cap = (400 if T else 40)
    m = {'seq': sm, 'conc': cm, 'ring': rm, 'types': None}
    js = [Job(e, b, a + (' max=1500000' if e == 'seq' else ''), m[e], cap) for e, b, a in s]
    eng = sorted({e for e, _, _ in s})
    return js, ' | '.join(f'{e}: {NOTE[e]}' for e in eng), [ASSUME[e] for e in eng]
