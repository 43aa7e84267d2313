"""The package of /repo imported under its own name, from a scratch directory."""
from common import *
os.makedirs('pkglib', exist_ok=True)
if not os.path.islink('pkglib/yupp'):
    os.symlink(REPO, 'pkglib/yupp')
sys.path.insert(0, os.path.abspath('pkglib'))
import yupp
from yupp.pp import yup, yugen
quiet()
