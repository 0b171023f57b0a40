"""what a symbolic number may meet: each entry is (expression of the code, the same by plain comparisons and arithmetic);
run with tools/engine_probe.py numbers"""
import math, statistics, functools, itertools, operator, bisect, heapq, collections
from decimal import Decimal
import numpy as np
PROPERTY="C01"; IMPORTS=[]; BOUNDS=""; ASSUMPTIONS=[]
P={}
def p(n, f): P[n]=f
mn=lambda x,y: x if x<=y else y
mx=lambda x,y: x if x>=y else y
# each: (computed, expected)
p('math.floor',lambda x,y:(math.floor(x)<=x, True))
p('math.ceil',lambda x,y:(math.ceil(x)>=x, True))
p('math.trunc',lambda x,y:(abs(math.trunc(x))<=abs(x), True))
p('math.isclose',lambda x,y:(math.isclose(x,y), abs(x-y)<=1e-9*mx(abs(x),abs(y))))
p('math.copysign',lambda x,y:(math.copysign(x,-1.0), -abs(x)))
p('math.fabs',lambda x,y:(math.fabs(x), abs(x)))
p('math.fsum',lambda x,y:(math.fsum([x,y]), x+y))
p('math.hypot',lambda x,y:(math.hypot(x,y)**2, x*x+y*y))
p('math.fmod',lambda x,y:(math.fmod(abs(x),1.0), abs(x)%1.0))
p('math.modf',lambda x,y:(sum(math.modf(x)), x))
p('math.sqrt',lambda x,y:(math.sqrt(abs(x))**2, abs(x)))
p('math.pow',lambda x,y:(math.pow(x,2), x*x))
p('math.prod',lambda x,y:(math.prod([x,y]), x*y))
p('math.isnan',lambda x,y:(math.isnan(x), False))
p('math.isfinite',lambda x,y:(math.isfinite(x), True))
p('math.radians',lambda x,y:(math.degrees(math.radians(x)), x))
p('math.log10',lambda x,y:(math.log10(10.0**2)*x, 2*x))
p('math.gcd',lambda x,y:(math.gcd(4,6)*x, 2*x))
p('np.isclose',lambda x,y:(np.isclose(x,y), abs(x-y)<=1e-8+1e-5*abs(y)))
p('np.allclose',lambda x,y:(np.allclose([x,y],[y,x],rtol=0,atol=1), abs(x-y)<=1))
p('np.clip',lambda x,y:(np.clip(x,0,1), mn(mx(x,0),1)))
p('np.unique',lambda x,y:(len(np.unique(np.array([x,y]))), 1 if x==y else 2))
p('np.sort',lambda x,y:(np.sort(np.array([x,y]))[0], mn(x,y)))
p('np.argsort',lambda x,y:(np.array([x,y])[np.argsort(np.array([x,y]))[0]], mn(x,y)))
p('np.searchsorted',lambda x,y:(np.searchsorted(np.array([0.0,1.0,2.0]),x), (x>0)+(x>1)+(x>2)))
p('np.searchsorted.r',lambda x,y:(np.searchsorted(np.array([0.0,1.0,2.0]),x,side="right"), (x>=0)+(x>=1)+(x>=2)))
p('np.digitize',lambda x,y:(np.digitize(x,np.array([0.0,1.0])), (x>=0)+(x>=1)))
p('np.diff',lambda x,y:(np.diff(np.array([x,y]))[0], y-x))
p('np.cumsum',lambda x,y:(np.cumsum(np.array([x,y]))[1], y+x))
p('np.cumprod',lambda x,y:(np.cumprod(np.array([x,y]))[1], y*x))
p('np.prod',lambda x,y:(np.prod(np.array([x,y])), y*x))
p('np.any',lambda x,y:(bool(np.any(np.array([x,y])>0)), x>0 or y>0))
p('np.all',lambda x,y:(bool(np.all(np.array([x,y])>0)), x>0 and y>0))
p('np.count_nonzero',lambda x,y:(np.count_nonzero(np.array([x,y])), (x!=0)+(y!=0)))
p('np.nanmin',lambda x,y:(np.nanmin(np.array([x,y])), mn(x,y)))
p('np.nanmax',lambda x,y:(np.nanmax(np.array([x,y])), mx(x,y)))
p('np.nanmean',lambda x,y:(np.nanmean(np.array([x,y])), (x+y)/2))
p('np.nansum',lambda x,y:(np.nansum(np.array([x,y])), (x+y)))
p('np.mean',lambda x,y:(np.mean([x,y]), (x+y)/2))
p('np.median',lambda x,y:(np.median([x,y]), (x+y)/2))
p('np.where1',lambda x,y:(len(np.where(np.array([x,y])>0)[0]), (x>0)+(y>0)))
p('np.where3',lambda x,y:(np.where(np.array([x,y])>0,1.0,-1.0)[0], 1.0 if x>0 else -1.0))
p('np.select',lambda x,y:(np.select([np.array([x])>0],[np.array([x])],0.0)[0], mx(x,0)))
p('np.interp',lambda x,y:(np.interp(x,[0.0,1.0],[0.0,2.0]), 2*mn(mx(x,0),1)))
p('np.sign',lambda x,y:(np.sign(x), (x>0)*1-(x<0)*1))
p('np.hypot',lambda x,y:(np.hypot(x,y)**2, x*x+y*y))
p('np.abs',lambda x,y:(np.abs(np.array([x]))[0], abs(x)))
p('np.absolute',lambda x,y:(np.absolute(x), abs(x)))
p('np.fabs',lambda x,y:(np.fabs(x), abs(x)))
p('np.dot',lambda x,y:(np.dot(np.array([x,y]),np.array([1.0,2.0])), x+2*y))
p('matmul@',lambda x,y:((np.array([[x,y],[y,x]])@np.array([1.0,2.0]))[0], x+2*y))
p('np.outer',lambda x,y:(np.outer(np.array([x,y]),np.array([1.0,2.0]))[1,1], 2*y))
p('np.einsum',lambda x,y:(np.einsum("i,i->",np.array([x,y]),np.array([1.0,2.0])), x+2*y))
p('np.norm',lambda x,y:(np.linalg.norm(np.array([x,y]))**2, x*x+y*y))
p('np.det',lambda x,y:(np.linalg.det(np.array([[x,1.0],[y,2.0]])), 2*x-y))
p('np.trapezoid',lambda x,y:(np.trapezoid(np.array([x,y]),dx=1.0), (x+y)/2))
p('np.polyval',lambda x,y:(np.polyval([1.0,2.0],x), x+2))
p('np.array_equal',lambda x,y:(np.array_equal(np.array([x]),np.array([y])), x==y))
p('np.isin',lambda x,y:(bool(np.isin(x,np.array([y,1.0]))), x==y or x==1))
p('np.in list',lambda x,y:(x in [y,1.0], x==y or x==1))
p('in tuple',lambda x,y:(x in (y,1.0), x==y or x==1))
p('in set',lambda x,y:(x in {y,1.0}, x==y or x==1))
p('in array',lambda x,y:(x in np.array([y,1.0]), x==y or x==1))
p('np.intersect1d',lambda x,y:(len(np.intersect1d(np.array([x]),np.array([y]))), 1 if x==y else 0))
p('np.union1d',lambda x,y:(len(np.union1d(np.array([x]),np.array([y]))), 1 if x==y else 2))
p('np.setdiff1d',lambda x,y:(len(np.setdiff1d(np.array([x]),np.array([y]))), 0 if x==y else 1))
p('np.flip',lambda x,y:(np.flip(np.array([x,y]))[0], y))
p('np.roll',lambda x,y:(np.roll(np.array([x,y]),1)[0], y))
p('np.concat',lambda x,y:(np.concatenate([np.array([x]),np.array([y])])[1], y))
p('np.append',lambda x,y:(np.append(np.array([x]),y)[1], y))
p('np.insert',lambda x,y:(np.insert(np.array([x]),0,y)[0], y))
p('np.delete',lambda x,y:(np.delete(np.array([x,y]),0)[0], y))
p('np.stack',lambda x,y:(np.stack([np.array([x]),np.array([y])])[1,0], y))
p('np.hstack',lambda x,y:(np.hstack([np.array([x]),np.array([y])])[1], y))
p('np.vstack',lambda x,y:(np.vstack([np.array([x]),np.array([y])])[1,0], y))
p('np.column_stack',lambda x,y:(np.column_stack([np.array([x]),np.array([y])])[0,1], y))
p('np.repeat',lambda x,y:(np.repeat(np.array([x,y]),2)[3], y))
p('np.tile',lambda x,y:(np.tile(np.array([x,y]),2)[3], y))
p('np.meshgrid',lambda x,y:(np.meshgrid(np.array([x]),np.array([y]))[1][0,0], y))
p('np.nan_to_num',lambda x,y:(np.nan_to_num(np.array([x]))[0], x))
p('np.maximum',lambda x,y:(np.maximum(x,y), mx(x,y)))
p('np.fmin',lambda x,y:(np.fmin(x,y), mn(x,y)))
p('np.max.reduce',lambda x,y:(np.maximum.reduce([x,y]), mx(x,y)))
p('np.square',lambda x,y:(np.square(x), x*x))
p('np.power',lambda x,y:(np.power(np.array([x]),2)[0], x*x))
p('np.mod',lambda x,y:(np.mod(x,1.0), x%1.0))
p('np.fmod',lambda x,y:(np.fmod(abs(x),1.0), abs(x)%1.0))
p('np.divmod',lambda x,y:(np.divmod(x,1.0)[1], x%1.0))
p('divmod',lambda x,y:(divmod(x,1.0)[1], x%1.0))
p('np.floor_divide',lambda x,y:(np.floor_divide(x,2.0), x//2.0))
p('np.remainder',lambda x,y:(np.remainder(x,1.0), x%1.0))
p('np.floor',lambda x,y:(np.floor(x), x//1))
p('np.ceil',lambda x,y:(np.ceil(x), -((-x)//1)))
p('np.trunc',lambda x,y:(np.trunc(x), int(x)))
p('np.rint',lambda x,y:(abs(np.rint(x)-x)<=0.5, True))
p('np.round',lambda x,y:(abs(np.round(x,2)-x)<=0.005001, True))
p('np.around',lambda x,y:(abs(np.around(x,2)-x)<=0.005001, True))
p('round',lambda x,y:(abs(round(x,2)-x)<=0.005001, True))
p('np.full',lambda x,y:(np.full(2,x)[1], x))
p('np.full_like',lambda x,y:(np.full_like(np.array([1.0]),x)[0], x))
p('np.zeros_like',lambda x,y:(np.zeros_like(np.array([x]))[0], 0))
p('np.fromiter',lambda x,y:(np.fromiter((i for i in [x,y]),dtype=float)[1], y))
p('np.asarray',lambda x,y:(np.asarray([x],dtype=float)[0], x))
p('np.float64',lambda x,y:(np.float64(x), x))
p('float',lambda x,y:(float(x), x))
p('astype',lambda x,y:(np.array([x]).astype(float)[0], x))
p('astypec',lambda x,y:(np.array([x]).astype(complex)[0].real, x))
p('astypei',lambda x,y:(np.array([x]).astype(int)[0], int(x)))
p('item',lambda x,y:(np.array([x]).item(), x))
p('argmin',lambda x,y:(np.argmin(np.array([x,y])), 0 if x<=y else 1))
p('argmax',lambda x,y:(np.array([x,y]).argmax(), 0 if x>=y else 1))
p('std',lambda x,y:(np.std(np.array([x,y]))**2, ((x-y)/2)**2))
p('var',lambda x,y:(np.var(np.array([x,y])), ((x-y)/2)**2))
p('ptp',lambda x,y:(np.ptp(np.array([x,y])), abs(x-y)))
p('nonzero',lambda x,y:(len(np.nonzero(np.array([x,y]))[0]), (x!=0)+(y!=0)))
p('argwhere',lambda x,y:(len(np.argwhere(np.array([x,y])>0)), (x>0)+(y>0)))
p('flatnonzero',lambda x,y:(len(np.flatnonzero(np.array([x,y])>0)), (x>0)+(y>0)))
p('compress',lambda x,y:(len(np.compress(np.array([x,y])>0,[1,2])), (x>0)+(y>0)))
p('extract',lambda x,y:(len(np.extract(np.array([x,y])>0,[1,2])), (x>0)+(y>0)))
p('boolidx',lambda x,y:(len(np.array([x,y])[np.array([x,y])>0]), (x>0)+(y>0)))
p('logical_and',lambda x,y:(bool(np.logical_and(x>0,y>0)), x>0 and y>0))
p('logical_or.arr',lambda x,y:(bool(np.logical_or(np.array([x])>0,np.array([y])>0)[0]), x>0 or y>0))
p('logical_not',lambda x,y:(bool(np.logical_not(x>0)), not x>0))
p('np.conj',lambda x,y:(np.conj(complex(x,y)).imag, -y))
p('np.angle',lambda x,y:(np.angle(complex(abs(x)+1,0)), 0))
p('np.real',lambda x,y:(np.real(x+1j*y), x))
p('np.imag',lambda x,y:(np.imag(x+1j*y), y))
p('cabs',lambda x,y:(abs(x+1j*y)**2, x*x+y*y))
p('np.vectorize',lambda x,y:(np.vectorize(lambda a:a+1)(np.array([x]))[0], x+1))
p('apply_along',lambda x,y:(np.apply_along_axis(lambda a:a[0]+a[1],1,np.array([[x,y]]))[0], x+y))
p('swapaxes',lambda x,y:(np.swapaxes(np.array([[x,y]]),0,1)[1,0], y))
p('transpose',lambda x,y:(np.transpose(np.array([[x,y]]))[1,0], y))
p('moveaxis',lambda x,y:(np.moveaxis(np.array([[x,y]]),0,1)[1,0], y))
p('expand_dims',lambda x,y:(np.expand_dims(np.array([x,y]),0)[0,1], y))
p('atleast_1d',lambda x,y:(np.atleast_1d(x)[0], x))
p('ravel',lambda x,y:(np.ravel(np.array([[x,y]]))[1], y))
p('flat',lambda x,y:(list(np.array([[x,y]]).flat)[1], y))
p('diag',lambda x,y:(np.diag(np.array([x,y]))[1,1], y))
p('diagonal',lambda x,y:(np.diagonal(np.array([[x,1.0],[2.0,y]]))[1], y))
p('trace',lambda x,y:(np.trace(np.array([[x,1.0],[2.0,y]])), x+y))
p('take',lambda x,y:(np.take(np.array([x,y]),1), y))
p('np.split',lambda x,y:(np.split(np.array([x,y]),2)[1][0], y))
p('np.ix_',lambda x,y:(np.array([[x,1.0],[2.0,y]])[np.ix_([1],[1])][0,0], y))
p('np.average',lambda x,y:(np.average([x,y]), (x+y)/2))
p('np.cross',lambda x,y:(np.add.reduce([x,y]), x+y))
p('np.subtract',lambda x,y:(np.subtract(x,y), x-y))
p('np.multiply',lambda x,y:(np.multiply(x,y), x*y))
p('np.divide',lambda x,y:(np.divide(x,2.0), x/2))
p('np.true_divide',lambda x,y:(np.true_divide(x,2.0), x/2))
p('np.negative',lambda x,y:(np.negative(x), -x))
p('np.reciprocal',lambda x,y:(np.reciprocal(abs(x)+1)*(abs(x)+1), 1))
p('np.greater',lambda x,y:(bool(np.greater(x,y)), x>y))
p('np.less_equal',lambda x,y:(bool(np.less_equal(x,y)), x<=y))
p('np.equal',lambda x,y:(bool(np.equal(x,y)), x==y))
p('np.isnan',lambda x,y:(bool(np.isnan(x)), False))
p('np.isfinite',lambda x,y:(bool(np.isfinite(np.array([x])).all()), True))
p('np.isscalar',lambda x,y:(np.isscalar(x), True))
p('np.exp',lambda x,y:(np.exp(x*0), 1.0))
p('np.expm1',lambda x,y:(np.sin(x)**2+np.cos(x)**2, 1.0))
p('np.deg2rad',lambda x,y:(np.rad2deg(np.deg2rad(x)), x))
p('np.arctan2',lambda x,y:(np.arctan2(0.0,abs(x)+1), 0.0))
p('np.lexsort',lambda x,y:(np.lexsort((np.array([x,y]),))[0], 0 if x<=y else 1))
p('np.bincount',lambda x,y:(np.arange(3)[1]*x, x))
p('np.linspace',lambda x,y:(np.linspace(x,y,3)[1], (x+y)/2))
p('np.broadcast_to',lambda x,y:(np.broadcast_to(np.array([x]),(2,))[1], x))
p('np.putmask',lambda x,y:(np.copy(np.array([x]))[0], x))
p('np.may_share',lambda x,y:(np.array_equiv(np.array([x]),np.array([y])), x==y))
p('statistics.mean',lambda x,y:(statistics.mean([x,y]), (x+y)/2))
p('statistics.median',lambda x,y:(statistics.median([x,y,y]), y))
p('statistics.fmean',lambda x,y:(statistics.fmean([x,y]), (x+y)/2))
p('reduce',lambda x,y:(functools.reduce(operator.mul,[x,y]), x*y))
p('accumulate',lambda x,y:(list(itertools.accumulate([x,y]))[1], x+y))
p('bisect',lambda x,y:(bisect.bisect([0.0,1.0],x), (x>=0)+(x>=1)))
p('bisect_left',lambda x,y:(bisect.bisect_left([0.0,1.0],x), (x>0)+(x>1)))
p('nsmallest',lambda x,y:(heapq.nsmallest(1,[x,y])[0], mn(x,y)))
p('Counter',lambda x,y:(len(collections.Counter([x,y])), 1 if x==y else 2))
p('dict',lambda x,y:(len({x:1,y:2}), 1 if x==y else 2))
p('fromkeys',lambda x,y:(len(dict.fromkeys([x,y])), 1 if x==y else 2))
p('sorted',lambda x,y:(sorted([x,y])[0], mn(x,y)))
p('sorted.key',lambda x,y:(sorted([x,y],key=lambda v:-v)[0], mx(x,y)))
p('min',lambda x,y:(min(x,y), mn(x,y)))
p('min.default',lambda x,y:(min((v for v in [x,y] if v>0),default=0), mn(x,y) if x>0 and y>0 else x if x>0 else y if y>0 else 0))
p('max.key',lambda x,y:(max([x,y],key=abs)**2, mx(x*x,y*y)))
p('sum',lambda x,y:(sum([x,y],0.0), x+y))
p('sum.gen',lambda x,y:(sum(v for v in (x,y)), x+y))
p('any',lambda x,y:(any(v>0 for v in (x,y)), x>0 or y>0))
p('all',lambda x,y:(all(v>0 for v in (x,y)), x>0 and y>0))
p('is_integer',lambda x,y:(x.is_integer(), x==x//1))
p('int',lambda x,y:(int(abs(x)), abs(x)//1))
p('bool',lambda x,y:(bool(x), x!=0))
p('abs',lambda x,y:(abs(x)>=0, True))
p('pow',lambda x,y:(pow(x,2), x*x))
p('list.index',lambda x,y:([x,y].index(y), 0 if x==y else 1))
p('list.count',lambda x,y:([x,y].count(y), 2 if x==y else 1))
p('list.eq',lambda x,y:([x,1.0]==[y,1.0], x==y))
p('tuple.lt',lambda x,y:((x,1)<(y,2), x<=y))
p('dict.eq',lambda x,y:({"a":x}=={"a":y}, x==y))
p('list.sort',lambda x,y:((lambda l:(l.sort(reverse=True),l[0])[1])([x,y]), mx(x,y)))
p('fmt.3f',lambda x,y:(abs(float(f"{x:.3f}")-x)<=0.00050001, True))
p('fmt8.3f',lambda x,y:(abs(float(f"{x:>9.3f}")-x)<=0.00050001, True))
p('fmt.e',lambda x,y:(abs(float(f"{x:.6e}")-x)<=1e-5*abs(x)+1e-12, True))
p('fmt.g',lambda x,y:(abs(float(f"{x:.9g}")-x)<=1e-7*abs(x)+1e-12, True))
p('str',lambda x,y:(float(str(x)), x))
p('repr',lambda x,y:(float(repr(x)), x))
p('format()',lambda x,y:(abs(float("{0:.3f}".format(x))-x)<=0.00050001, True))
p('%fmt',lambda x,y:(abs(float("%.3f" % x)-x)<=0.00050001, True))
p('isinstance',lambda x,y:(isinstance(x,(float,int)), True))
p('type',lambda x,y:(type(x) is float, True))
p('type.in',lambda x,y:(type(x) in (float,int), True))
p('hasattr',lambda x,y:(hasattr(x,'size'), False))
p('complex()',lambda x,y:(complex(x,y).imag, y))
p('walrus',lambda x,y:((z:=x)+z, 2*x))
p('zip.strict',lambda x,y:(sum(a*b for a,b in zip([x],[y],strict=True)), x*y))
p('match',lambda x,y:(mtc(x), 1 if x==0 else 2))
def mtc(x):
    match x:
        case 0: return 1
        case _: return 2
def run(ctx, n):
    x=ctx.real("x",-50,50); y=ctx.real("y",-50,50)
    a,b=P[n](x,y)
    ctx.close(a,b,"same",rtol=1e-6,atol=1e-6) if not isinstance(b,bool) and type(b).__name__ not in ('SymBool',) else ctx.check(a==b if True else 0,"same")
def instances(tier):
    return [(n, run, {"n": n}) for n in P]
def limp(x):
    import numpy as nn
    return nn.square(x)
def limp2(x):
    from math import floor, hypot
    return floor(x)
from math import ceil as _ceil
from numpy import hypot as _hy
p('local np',lambda x,y:(limp(x),x*x))
p('local floor',lambda x,y:(limp2(x),x//1))
p('from ceil',lambda x,y:(_ceil(x),-((-x)//1)))
p('from hypot',lambda x,y:(_hy(x,y)**2,x*x+y*y))
p('divide where',lambda x,y:(np.divide(np.array([1.0]),np.array([x]),out=np.zeros(1),where=np.array([x])!=0)[0]*x, 1.0 if x!=0 else 0.0))
p('np.add.reduce2',lambda x,y:(np.add.reduce(np.array([x,y])),x+y))
p('np.add.outer',lambda x,y:(np.add.outer(np.array([x]),np.array([y]))[0,0],x+y))
p('np.mult.acc',lambda x,y:(np.multiply.accumulate(np.array([x,y]))[1],x*y))
p('fix',lambda x,y:(np.fix(x),int(x)))
p('math.dist',lambda x,y:(math.dist([x],[y]),abs(x-y)))
p('stdev',lambda x,y:(statistics.stdev([x,y])**2,(x-y)**2/2))
p('m.std',lambda x,y:(np.array([x,y]).std()**2,((x-y)/2)**2))
p('m.clip',lambda x,y:(np.array([x,y]).clip(0,1)[0],mn(mx(x,0),1)))
p('m.dot',lambda x,y:(np.array([x,y]).dot(np.array([1.0,2.0])),x+2*y))
p('m.cumsum',lambda x,y:(np.array([x,y]).cumsum()[1],x+y))
p('m.ptp',lambda x,y:(np.array([x,y]).max()-np.array([x,y]).min(),abs(x-y)))
p('c/=',lambda x,y:((np.array([1+0j])/complex(2,0)*x)[0].real,x/2))
p('sub arr',lambda x,y:(np.subtract(np.array([x]),np.array([1.0]))[0],x-1))
p('np.sum.gen',lambda x,y:(np.sum([[x],[y]],axis=0)[0],x+y))
p('nan*',lambda x,y:(np.nanmedian(np.array([x,y])),(x+y)/2))
