# turns near-degenerate inputs (found offline) into configurations of harness/pred.cpp
import sys
from fractions import Fraction
import math
out=[]
for f in sys.argv[1:]:
    for l in open(f):
        a,b,c=l.split('|'); t=a.split(); kind,h=int(t[0]),int(t[1]); q=[float(x) for x in t[2:]]; pe=[int(x) for x in b.split()]; p=[53,8,11][h]
        ulp=[0]*len(q)
        for i in pe:
            e=math.frexp(q[i])[1]; ulp[i]=Fraction(2)**(e-p)
        den=max([Fraction(x).denominator for x in q]+[Fraction(x).denominator for x in ulp if x]); s=den.bit_length()-1
        bi=[int(Fraction(x)*den) for x in q]; st=[int(u*den) for u in ulp]
        assert all(abs(x)<2**62 for x in bi)
        out.append('{%d,%d,%d,{%s},{%s},{%s},%d}, // %s'%(kind,h,s,','.join('%dLL'%x if x!=0 else '0' for x in bi),','.join('%dLL'%x if x else '0' for x in st),','.join(map(str,pe)),len(pe),c.strip()[:150]))
print('// kind(0 orient2d,1 incircle,2 orient3d,3 insphere), precision (0 double, 1 P1, 2 P2 bits), scale, coordinates, ulps, perturbable coordinates, how many')
for i,o in enumerate(out): print('/*%d*/ %s'%(i,o))
