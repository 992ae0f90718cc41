from builtins import range, zip, map, filter, input      # noqa: F401

import pickle as cPickle                                 # noqa: F401,E402
from functools import reduce                             # noqa: F401,E402
from io import StringIO                                  # noqa: F401,E402
xrange = range
