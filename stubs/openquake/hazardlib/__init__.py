from openquake.hazardlib import (
    const, geo, mfd, pmf, scalerel, source, tom, gsim)
