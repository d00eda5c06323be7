from openquake.hazardlib import gsim
SadighEtAl1997 = gsim.get_available_gsims()['SadighEtAl1997']
