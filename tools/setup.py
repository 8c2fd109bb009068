import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gx
gx.build_gxt()
F = gx.extract("base")
print("extractor ready: %d functions" % len(F.functions))
