from lsst import hooks


def updateCatalogFootprints(**kw):
    return hooks['update_footprints'](**kw)
