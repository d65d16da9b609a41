import __vp__
__vp_open__ = 'decimal'


class Decimal(object):
    def __init__(self, v='0'):
        self.v = v
