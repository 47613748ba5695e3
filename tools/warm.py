import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vxlib

w = vxlib.newwork("warm")
try:
    b = vxlib.Bundle(w)
    b.add_package("vp/p0", vxlib.package_text("vp/p0", "(func t : string\n []\n (string 1))\n"))
    b.add_test("t", "vp/p0", "t")
    rc, o, e = b.generate()
    print(rc, (o + e)[:300])
    print(b.run_all())
except Exception as x:
    # a tree that does not build is for the checks to judge
    print("warm-up failed:", x)
finally:
    vxlib.rmwork(w)
