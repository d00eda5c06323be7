from numpy import testing
