"""Nothing to build: check that the compilers the analysis reads the sources with are there."""
import shutil
import sys

missing = [x for x in ('clang++', 'protoc', 'c++filt') if not shutil.which(x)]
if missing:
    sys.exit('missing: ' + ', '.join(missing))
print('ready')
