import sys,json
sys.path.insert(0,'/verif')
from vclib.program import Program
import vclib.program as pr
P=pr.load() if hasattr(pr,'load') else Program()
fs=[f for f in P.functions.values() if sys.argv[1] in f['q']]
for f in fs[:int(sys.argv[2]) if len(sys.argv)>2 else 1]:
    print(f['q'],f['file']); print(json.dumps({k:(sorted(v) if isinstance(v,set) else v) for k,v in f.items()},default=str)[:int(sys.argv[3]) if len(sys.argv)>3 else 6000])
