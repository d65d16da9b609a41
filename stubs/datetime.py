__vp_open__ = 'datetime'
