"""Cached function fields, their cache, and uses of them."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import cached, depend_on_related
from shapes import drive


class Store(object):
    """A cache that may or may not hold something under any key."""
    def __init__(self, name):
        self.name = name

    def found(self, key, default):
        if __vp__.atom('cache.has', self.name, key):
            return self.stored(key)
        return default

    def stored(self, key):
        v = __vp__.term('stored', self.name, key)
        __vp__.nonnull(v)
        return v

    def get(self, key, default=None, version=None):
        __vp__.note('cache.get', self.name, key)
        return self.found(key, default)

    def set(self, key, value, timeout=None, version=None):
        __vp__.note('cache.set', self.name, key, value)

    def add(self, key, value, timeout=None, version=None):
        __vp__.note('cache.add', self.name, key, value)
        return __vp__.atom('cache.added', self.name, key)

    def get_or_set(self, key, default, timeout=None, version=None):
        __vp__.note('cache.get', self.name, key)
        if __vp__.atom('cache.has', self.name, key):
            return self.stored(key)
        value = default() if callable(default) else default
        __vp__.note('cache.set', self.name, key, value)
        return value

    def __contains__(self, key):
        __vp__.note('cache.get', self.name, key)
        return __vp__.atom('cache.has', self.name, key)

    def delete(self, key, version=None):
        __vp__.note('cache.delete', self.name, key)


class Shelf(models.Model):
    class Meta:
        app_label = 'shop'


class Base(models.Model):
    class Meta:
        app_label = 'shop'
        abstract = True

    @cached(Store('base'))
    def inherited(self):
        return __vp__.event('computed', 'inherited', self.__dict__.get('tag'))


class Book(models.Model):
    class Meta:
        app_label = 'shop'

    shelf = models.ForeignKey(Shelf, on_delete=models.CASCADE, null=True)

    @cached(Store('first'))
    @depend_on_related(Shelf)
    def text(self):
        return __vp__.event('computed', 'text', self.__dict__.get('tag'))


class Paper(Base):
    class Meta:
        app_label = 'shop'


def fresh(model, tag):
    o = __vp__.new(model)
    o.__dict__['tag'] = tag
    return o


def assign(model, name, values):
    """Keys assigned one after the other to one instance."""
    o = fresh(model, 'a')
    for v in values:
        __vp__.note('assign', v)
        setattr(o, name, v)
    return (getattr(o, name),)


def pair(model, name, values):
    """Keys assigned to one instance each."""
    a, b = fresh(model, 'a'), fresh(model, 'b')
    __vp__.note('assign', values[0])
    setattr(a, name, values[0])
    __vp__.note('assign', values[1])
    setattr(b, name, values[1])
    return (getattr(a, name), getattr(b, name))


def create(model, name):
    __vp__.note('assign', 0)
    o = model()
    return (getattr(o, name),)


def load(model, name):
    """An instance made from a row by the framework."""
    __vp__.note('assign', None)
    o = model.vp_from_row(__vp__.sym('row'), 'default')
    return (getattr(o, name),)


def save(model, name, how):
    o = drive.instance(model, how)
    o.__dict__['tag'] = 'a'
    __vp__.note('begin')
    o.save()
    return (getattr(o, name),)


apps.models_ready = True
