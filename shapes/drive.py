"""Uses of the analysed project by a client, analysed together with a model set."""
import __vp__
from django.db import connections


def instance(model, how, **kw):
    if how.endswith('+'):
        # saved before
        o = instance(model, how[:-1], **kw)
        o.save()
        return o
    if how == 'new':
        return model(**kw)
    if how == 'keyed':
        kw[model._meta.pk.attname] = __vp__.sym('pk', 'key')
        return model(**kw)
    return model.vp_from_row(__vp__.sym('row'), 'default')


def save(model, how, names, **kw):
    """Save an instance; the stored attribute values afterwards."""
    o = instance(model, how)
    __vp__.note('begin')
    o.save(**kw)
    return tuple([o.__dict__.get(n) for n in names])


def save_over(model, how, names, kw):
    """Save an instance whose attributes hold something else than the row."""
    o = instance(model, how)
    for n in names:
        setattr(o, n, __vp__.sym('held.' + n))
    __vp__.note('begin')
    o.save(**kw)
    return tuple([o.__dict__.get(n) for n in names])


def respond(request):
    return __vp__.event('view', request)


def serve(cls):
    """One request through the middleware."""
    return cls(respond)(__vp__.sym('request'))


def finish():
    """The framework's signals around one request."""
    from django.core import signals
    signals.request_started.send(sender=__vp__.sym('handler'))
    __vp__.note('request.finished')
    signals.request_finished.send(sender=__vp__.sym('handler'))


def fail():
    from django.core import signals
    signals.request_started.send(sender=__vp__.sym('handler'))
    signals.got_request_exception.send(sender=__vp__.sym('handler'), request=__vp__.sym('request'))
