#!/bin/bash
# builds cbindgen (and the helper crate, when present) from /repo's working tree into /verif/build
cd "$(dirname "$0")" || exit 1
exec python3-vt -c '
import sys; sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
import vp
print(vp.build_cbindgen())
if hasattr(vp, "build_helper"):
    print(vp.build_helper())
'
