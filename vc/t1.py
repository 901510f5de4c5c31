import sys, time
import os; H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H); sys.path.insert(0,H+'/specs')
import cfront, contract as C, importlib
def main(files, specs, names, cats):
    units=[cfront.load(cfront.REPO+'/src/'+f, f.endswith('cpp')) for f in files]
    for s in specs: importlib.import_module(s)
    for k,c in C.CONTRACTS.items():
        if names and k not in names: continue
        r=C.verify(c,units,cats)
        bad=[o for o in r.obls if o['status']!='valid']
        print(k, 'obls',len(r.obls),'bad',len(bad),'err',r.error,'%.1fs'%r.time, r.notes)
        for o in bad: print('   ',o['status'],o['cat'],o['what'],o['line'],o['reason'],o['term'] and o['term'][:400],str(o['model'])[:300], o['taint'])
if __name__=='__main__':
    main(sys.argv[1].split(','), sys.argv[2].split(','), [x for x in sys.argv[3].split(',') if x] if len(sys.argv)>3 else [], sys.argv[4].split(',') if len(sys.argv)>4 else None)
