import __vp__


class _H(object):
    def __init__(self, name, data):
        self.name = name
        self.data = data

    def update(self, data):
        self.data = (self.data, data)

    def hexdigest(self):
        return __vp__.term('strop', 'hash', self.name, self.data)

    digest = hexdigest


def md5(data=b''):
    return _H('md5', data)


def sha1(data=b''):
    return _H('sha1', data)


def sha256(data=b''):
    return _H('sha256', data)
