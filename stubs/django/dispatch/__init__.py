__vp_open__ = 'django.dispatch.dispatcher'
import __vp__


class Signal(object):
    __vp_open__ = 'django.dispatch.dispatcher'

    def __init__(self, name='signal', providing_args=None, use_caching=False):
        self.vp_name = name
        self.receivers = []

    def connect(self, receiver, sender=None, weak=True, dispatch_uid=None):
        key = (dispatch_uid, None, id(sender)) if dispatch_uid else (None, receiver, id(sender))
        __vp__.note('signal.connect', self.vp_name, receiver, sender, weak, dispatch_uid)
        for k, r, s in self.receivers:
            if k == key:
                return
        self.receivers.append((key, receiver, sender))

    def disconnect(self, receiver=None, sender=None, dispatch_uid=None):
        key = (dispatch_uid, None, id(sender)) if dispatch_uid else (None, receiver, id(sender))
        n = len(self.receivers)
        self.receivers = [x for x in self.receivers if x[0] != key]
        return len(self.receivers) < n

    def has_listeners(self, sender=None):
        return bool(self._live_receivers(sender))

    def _live_receivers(self, sender):
        return [r for k, r, s in self.receivers if s is None or s is sender]

    def send(self, sender, **named):
        out = []
        for r in self._live_receivers(sender):
            out.append((r, r(signal=self, sender=sender, **named)))
        return out

    def send_robust(self, sender, **named):
        out = []
        for r in self._live_receivers(sender):
            try:
                out.append((r, r(signal=self, sender=sender, **named)))
            except Exception as err:
                out.append((r, err))
        return out


class ModelSignal(Signal):
    def connect(self, receiver, sender=None, weak=True, dispatch_uid=None, apps=None):
        if isinstance(sender, str):
            __vp__.unsupported('lazy signal sender')
        super(ModelSignal, self).connect(receiver, sender, weak, dispatch_uid)


def receiver(signal, **kwargs):
    def _decorator(func):
        if isinstance(signal, (list, tuple)):
            for s in signal:
                s.connect(func, **kwargs)
        else:
            signal.connect(func, **kwargs)
        return func
    return _decorator
