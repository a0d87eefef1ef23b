import sys; sys.path.insert(0,'/verif/vc')
import cProfile,pstats,runpy
p=cProfile.Profile(); sys.argv=sys.argv[1:]; sys.argv.insert(0,'t1')
try: p.runcall(runpy.run_path,'/verif/vc/t1.py',run_name='__main__')
except SystemExit: pass
pstats.Stats(p).sort_stats('cumtime').print_stats(45)
