import sys, time
sys.path.insert(0,'/verif')
t=time.time()
from engine import rt, transform, core
transform.install(rt)
import quantify_scheduler
import quantify_scheduler.backends.qblox.helpers as h
import quantify_scheduler.backends.qblox_backend
print('import',time.time()-t)
from engine.core import *
@unit("t.grid","P0")
def u(vc):
    t=vc.real("t",lo=0)
    f=vc.fn("quantify_scheduler.backends.qblox.helpers:to_grid_time")
    o=vc.run(f,t)
    k=round(t*10**9)
    if o.ok:
        vc.prove("int", o.value==k)
        vc.prove("close", abs(o.value-t*10**9)<=vc.lit("0.0011"))
    else:
        vc.prove("exc", vc.Or(o.value is None))
@unit("t.freq","P0")
def u2(vc):
    t=vc.real("f")
    f=vc.fn("quantify_scheduler.backends.qblox.helpers:get_nco_set_frequency_arguments")
    o=vc.run(f,t)
    if o.ok:
        vc.prove("int", abs(o.value-4*t)<=vc.lit("0.5"))
        vc.prove("range", vc.And(t<=500e6,t>=-500e6))
    else:
        vc.prove("exc", vc.Or(t>500e6,t<-500e6))
for n in ("t.grid","t.freq"):
    ex=Explorer(UNITS[n],"prove",30)
    ex.explore()
    print(ex.result())
