"""what a symbolic text may meet: each entry is compared with the plain result for a table of inputs;
run with tools/engine_probe.py strings"""
import re, string, os
from collections import Counter, defaultdict, OrderedDict
from pathlib import Path
PROPERTY="C01"; IMPORTS=[]; BOUNDS=""; ASSUMPTIONS=[]
P={}
def p(n,f): P[n]=f
# bodies evaluated symbolically; the model of every path is replayed natively and compared
p('strip',lambda s,t:s.strip()); p('lower',lambda s,t:s.lower()); p('title',lambda s,t:s.title()); p('casefold',lambda s,t:s.casefold())
p('swapcase',lambda s,t:s.swapcase()); p('split',lambda s,t:s.split("b")); p('rsplit',lambda s,t:s.rsplit("b",1)); p('partition',lambda s,t:s.partition("b"))
p('rpartition',lambda s,t:s.rpartition("b")); p('splitlines',lambda s,t:s.splitlines()); p('replace',lambda s,t:s.replace("b","cc")); p('translate',lambda s,t:s.translate(str.maketrans("b","c")))
p('startswith',lambda s,t:s.startswith(("b","1"))); p('endswith',lambda s,t:s.endswith("b")); p('find',lambda s,t:s.find("b")); p('rindex',lambda s,t:s.rfind("b"))
p('isdigit',lambda s,t:s.isdigit()); p('isalpha',lambda s,t:s.isalpha()); p('isalnum',lambda s,t:s.isalnum()); p('isupper',lambda s,t:s.isupper()); p('isspace',lambda s,t:s.isspace())
p('isnumeric',lambda s,t:s.isnumeric()); p('isidentifier',lambda s,t:s.isidentifier()); p('isdecimal',lambda s,t:s.isdecimal()); p('zfill',lambda s,t:s.zfill(4)); p('ljust',lambda s,t:s.ljust(4,"-")); p('center',lambda s,t:s.center(4))
p('removeprefix',lambda s,t:s.removeprefix("b")); p('removesuffix',lambda s,t:s.removesuffix("b")); p('count',lambda s,t:s.count("b")); p('join',lambda s,t:"-".join([s,t])); p('join2',lambda s,t:s.join(["x","y"]))
p('join.chars',lambda s,t:"".join(c for c in s if c.isdigit())); p('reversed',lambda s,t:"".join(reversed(s))); p('slice',lambda s,t:s[::-1]); p('slice2',lambda s,t:s[1:]); p('neg',lambda s,t:s[-1])
p('sorted',lambda s,t:sorted([s,t])); p('sortedkey',lambda s,t:sorted([s,t],key=str.lower)); p('sortedkey2',lambda s,t:sorted([s,t],key=lambda q:q.upper())); p('min',lambda s,t:min(s,t)); p('max',lambda s,t:max([s,t],key=len))
p('set',lambda s,t:len({s,t})); p('set2',lambda s,t:len(set([s,t,"b"]))); p('set.lower',lambda s,t:len({q.lower() for q in (s,t)})); p('dict',lambda s,t:len({s:1,t:2})); p('dictcomp',lambda s,t:len({q:1 for q in (s,t,"b")}))
p('fromkeys',lambda s,t:list(dict.fromkeys([s,t,"b"]))); p('Counter',lambda s,t:Counter([s,t])["b"]); p('defaultdict',lambda s,t:dd(s,t)); p('setops',lambda s,t:len({s}&{t})); p('setdiff',lambda s,t:len({s}-{t,"b"})); p('setunion',lambda s,t:len({s}|{"b"})); p('issub',lambda s,t:{s}<={"b","1"}); p('isdisj',lambda s,t:{s}.isdisjoint({"b"}))
p('symdiff',lambda s,t:len({s}^{t})); p('keysand',lambda s,t:len({s:1}.keys()&{"b":1}.keys())); p('dict|',lambda s,t:len({s:1}|{"b":2})); p('dict**',lambda s,t:len({**{s:1},**{t:2}}))
p('get',lambda s,t:{"b":1,"1":2}.get(s,0)); p('getitem',lambda s,t:gi(s)); p('in',lambda s,t:s in "ab1"); p('in2',lambda s,t:"b" in s); p('inlist',lambda s,t:s in ["b",t]); p('intuple',lambda s,t:s in ("b","1")); p('inset',lambda s,t:s in {"b","1"}); p('frozenset',lambda s,t:s in frozenset(("b","1")))
p('any',lambda s,t:any(q==s for q in ("b","1"))); p('next',lambda s,t:next((q for q in ("b","1") if q==s),None)); p('index',lambda s,t:["b",t,s].index(s)); p('listcount',lambda s,t:[s,t,"b"].count("b")); p('listremove',lambda s,t:rm(s,t)); p('enumerate',lambda s,t:[i for i,c in enumerate(s) if c=="b"]); p('zip',lambda s,t:sum(a==b for a,b in zip(s,t)))
p('eq',lambda s,t:s==t); p('lt',lambda s,t:s<t); p('ge',lambda s,t:s>="b"); p('ne',lambda s,t:s!=t); p('add',lambda s,t:s+"x"+t); p('mul',lambda s,t:s*2); p('iadd',lambda s,t:ia(s)); p('len',lambda s,t:len(s)); p('bool',lambda s,t:bool(s)); p('not',lambda s,t:not s); p('or',lambda s,t:s or "z")
p('int',lambda s,t:tr(int,s)); p('float',lambda s,t:tr(float,s)); p('ord',lambda s,t:ord(s[0])); p('chr',lambda s,t:chr(ord(s[0])+1)); p('repr',lambda s,t:repr(s)); p('str',lambda s,t:str(s)); p('fstr',lambda s,t:f"{s}-{t:>4}"); p('fstr!r',lambda s,t:f"{s!r}"); p('format',lambda s,t:"{0}.{1}".format(s,t)); p('formatk',lambda s,t:"{a}".format(a=s)); p('%',lambda s,t:"%s-%s"%(s,t)); p('%2',lambda s,t:"%5s"%s)
p('re.match',lambda s,t:bool(re.match(r"[b1]+$",s))); p('re.sub',lambda s,t:re.sub(r"[b]+","x",s)); p('re.search',lambda s,t:bool(re.search(r"\d",s))); p('re.split',lambda s,t:re.split(r"b",s)); p('re.findall',lambda s,t:len(re.findall(r"\d",s))); p('re.full',lambda s,t:bool(re.fullmatch(r"\w+",s))); p('re.compile',lambda s,t:bool(re.compile("b",re.I).search(s))); p('re.group',lambda s,t:grp(s)); p('re.escape',lambda s,t:re.escape(s))
p('map',lambda s,t:list(map(str.strip,[s,t]))); p('map2',lambda s,t:list(map(str.upper,[s,t]))); p('filter',lambda s,t:list(filter(None,[s.strip(),t]))); p('isinstance',lambda s,t:isinstance(s,str)); p('type',lambda s,t:type(s) is str); p('type==',lambda s,t:type(s)==str); p('hasattr',lambda s,t:hasattr(s,"lower")); p('hash',lambda s,t:(hash(s)==hash(t)) or s!=t)
p('list',lambda s,t:list(s)); p('tuple',lambda s,t:tuple(s)); p('unpack',lambda s,t:[*s]); p('head',lambda s,t:hd(s)); p('match',lambda s,t:mt(s)); p('match2',lambda s,t:mt2(s)); p('setattr',lambda s,t:sa(s)); p('getattr',lambda s,t:ga(s)); p('vars',lambda s,t:len(vars(mk(s))))
p('encode',lambda s,t:len(s.encode())); p('string.digits',lambda s,t:s[0] in string.digits); p('expandtabs',lambda s,t:s.expandtabs()); p('os.path',lambda s,t:os.path.basename("a/"+s)); p('Path',lambda s,t:Path("a/"+s+".txt").suffix); p('Path.stem',lambda s,t:Path(s+".txt").stem); p('dict.items',lambda s,t:[k for k,v in {s:1,"q":2}.items() if v==1][0]); p('pop',lambda s,t:{s:1,"q":2}.pop(s)); p('del',lambda s,t:dl(s,t)); p('sum',lambda s,t:sum(c=="b" for c in s)); p('all',lambda s,t:all(c in "b1" for c in s)); p('walrus',lambda s,t:(q:=s.strip())+q); p('tern',lambda s,t:"x" if s else "y"); p('chain',lambda s,t:s.strip().lower().replace("b","")); p('lstripchars',lambda s,t:s.lstrip("b1")); p('split none',lambda s,t:s.split()); p('split max',lambda s,t:s.split("b",1)[0]); p('startpos',lambda s,t:s.startswith("b",1)); p('cmp chain',lambda s,t:"a"<=s[0]<="c"); p('index err',lambda s,t:tr2(s)); p('groupby',lambda s,t:len(set(map(str.lower,[s,t]))))
def dd(s,t):
    d=defaultdict(list); d[s].append(1); d[t].append(2); return len(d)
def gi(s):
    try: return {"b":1,"1":2}[s]
    except KeyError: return 0
def rm(s,t):
    l=[s,t,"b"]; l.remove("b"); return l
def ia(s):
    r=""
    for c in s: r+=c.upper()
    return r
def tr(f,s):
    try: return f(s)
    except ValueError: return None
def grp(s):
    m=re.match(r"([a-z]*)(\d*)",s); return (m.group(1),m.group(2))
def hd(s):
    a,*b=s; return a
def mt(s):
    match s:
        case "b": return 1
        case "1"|"a": return 2
        case _: return 3
def mt2(s):
    match s.lower():
        case "b": return 1
        case q if q.startswith("1"): return 2
        case _: return 3
class O: pass
def mk(s):
    o=O(); setattr(o,"x"+s,1); return o
def sa(s):
    o=O(); o.b=5; setattr(o,s,7); return o.b
def ga(s):
    o=O(); o.b=5; return getattr(o,s,0)
def dl(s,t):
    d={s:1,"q":2}
    del d[s]
    return len(d)
def tr2(s):
    try: return s.index("b")
    except ValueError: return -1
def rare(ctx,n):
    s=ctx.str("s",1,2,alphabet="aAb1 "); t=ctx.str("t",1,2,alphabet="aAbB1")
    r=P[n](s,t)
    e=TABLE[n]
    # compare with the native result for every input
    for (a,b),v in e.items():
        if s==a and t==b:
            ctx.check(same(r,v),"native")
            return
def same(r,v):
    if isinstance(v,(list,tuple)):
        if len(r)!=len(v): return False
        for a,b in zip(r,v):
            if not same(a,b): return False
        return True
    if v is None: return r is None
    return r==v
TABLE={}
def instances(tier):
    return [(n,rare,{"n":n}) for n in P]
