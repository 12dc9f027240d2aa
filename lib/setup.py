import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
c = vf.Ctx('setup')
c.build()
print('setup done')
