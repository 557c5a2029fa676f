"""shared by the element checks"""
from vcgen.build import RT,UTILS,CORE
FREES=['CPPQEDelements/frees/ParsMode.cc','CPPQEDelements/frees/Mode.cc','CPPQEDelements/frees/Qbit.cc','CPPQEDelements/frees/Spin.cc']
def spindims(c,minS=1):
    """twoS, the dim parameter and the resulting dimension: full or truncated spin space"""
    if c.choice('trunc',[0,1]):
        n=c.extent('n'); twoS=c.extent('twoS'); c.assume(n<=twoS); return twoS,n,n
    twoS=c.extent('twoS',minS); return twoS,c.choice('bigdim',[0,1]) and twoS+1,twoS+1
INTER=['CPPQEDelements/interactions/JaynesCummings.cc','CPPQEDelements/interactions/CoupledModes.cc','CPPQEDelements/interactions/GeneralDicke.cc']
