"""Property id -> class."""

import props_data as pd
import props_em as pe
import props_service as ps
import props_ops as po
import props_precision as pp
import props_sample as psm
import props_track as pt

PROPS = {c.__name__: c for c in (pt.C01, pt.C02, pt.C03, pt.C04, pt.C11, pt.C14, pt.C15,
                                 pe.C05, pe.C06, ps.C07, ps.C08, ps.C12, psm.C09, pp.C10, pd.C13, po.C16, po.C19)}
