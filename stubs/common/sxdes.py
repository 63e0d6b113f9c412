"""stand-in for sxdes: detection delegates to a harness supplied hook"""
hooks = {}
DETECT_THRESH = 0.8
SX_CONFIG = {'deblend_cont': 0.00001, 'deblend_nthresh': 64, 'minarea': 4,
             'filter_type': 'conv', 'filter_kernel': [[1.0]]}


def run_sep(image, noise, config=SX_CONFIG, thresh=DETECT_THRESH, mask=None):
    return hooks['run_sep'](image=image, noise=noise, config=config,
                            thresh=thresh, mask=mask)
