from openquake.hazardlib import gsim
ChiouYoungs2008 = gsim.get_available_gsims()['ChiouYoungs2008']
