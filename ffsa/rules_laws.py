"""which law files carry the laws of which property: read off the law names"""
import glob, os
from .core import LAWFILES
from .front import HERE
from .laws import NAME
for f in sorted(glob.glob(os.path.join(HERE, "laws", "*.cpp"))):
    for m in sorted({m.group(2) for m in NAME.finditer(open(f).read())}):
        LAWFILES.setdefault(m, []).append(os.path.basename(f)[:-4])
