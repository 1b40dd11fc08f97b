"""Handles on the code under test: public classes and documented helpers."""
import sys

import direpack
from direpack import (  # noqa: F401
    GenSpatialSignPreProcessor,
    VersatileScaler,
    Wrapper,
    capi,
    dicomo,
    estimate_structural_dim,
    gen_ss_covmat,
    gen_ss_pp,
    minimize_ipopt,
    ppdire,
    ppdire_plot,
    rm,
    robust_loss,
    snipls,
    sprm,
    sprm_plot,
    sprm_plot_cv,
    sudire,
    sudire_plot,
    versatile_scale,
    wrap,
)

pre = sys.modules["direpack.preprocessing._preproc_utilities"]
gss = sys.modules["direpack.preprocessing._gsspp_utils"]
msup = sys.modules["direpack.sprm._m_support_functions"]
dutil = sys.modules["direpack.dicomo._dicomo_utils"]
sutil = sys.modules["direpack.sudire._sudire_utils"]
pputil = sys.modules["direpack.ppdire._ppdire_utils"]
cvsup = sys.modules["direpack.cross_validation._cv_support_functions"]
ipw = sys.modules["direpack.ipopt_temp.ipopt_wrapper"]
jacmod = sys.modules["direpack.ipopt_temp.jacobian"]
utils = sys.modules["direpack.utils.utils"]
