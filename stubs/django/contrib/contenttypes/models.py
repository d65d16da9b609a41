import __vp__
from django.db import models
__vp_open__ = 'django.contrib.contenttypes.models'


class ContentTypeManager(models.Manager):
    use_in_migrations = True

    def vp_build(self, model):
        ct = __vp__.new(ContentType)
        ct._state = models.base.ModelState(self.db)
        ct._state.adding = False
        ct.id = __vp__.term('ct', model._meta.label)
        ct.app_label = model._meta.app_label
        ct.model = model._meta.model_name
        return ct

    def get_for_model(self, model, for_concrete_model=True):
        if for_concrete_model:
            model = model._meta.concrete_model
        return self.vp_build(model)

    def get_for_models(self, *ms, for_concrete_models=True):
        return {m: self.get_for_model(m, for_concrete_models) for m in ms}

    def get_by_natural_key(self, app_label, model):
        return self.get_for_model(self.vp_model(app_label, model))

    def vp_model(self, app_label, model):
        from django.apps import apps
        return apps.get_model(app_label, model)

    def get_for_id(self, id):
        ct = __vp__.new(ContentType)
        ct._state = models.base.ModelState(self.db)
        ct._state.adding = False
        ct.id = id
        ct.app_label = __vp__.term('attr', id, 'app_label')
        ct.model = __vp__.term('attr', id, 'model')
        return ct

    def clear_cache(self):
        return None


class ContentType(models.Model):
    app_label = models.CharField(max_length=100)
    model = models.CharField('python model class name', max_length=100)
    objects = ContentTypeManager()

    class Meta:
        app_label = 'contenttypes'
        db_table = 'django_content_type'
        unique_together = (('app_label', 'model'),)

    def __str__(self):
        return __vp__.fresh('contenttype name', 'str')

    @property
    def name(self):
        return __vp__.fresh('contenttype name', 'str')

    def model_class(self):
        return AnyModel(self)

    def vp_any(self, how, **kwargs):
        from django.core.exceptions import ObjectDoesNotExist
        from django.db.models.base import AnyInstance
        __vp__.db_fault('object')
        res = __vp__.event('db', 'object', how, self.id, tuple(sorted(kwargs.items())))
        if __vp__.atom('hasrow', res, 0):
            return AnyInstance(res, kwargs.get('pk'))
        raise ObjectDoesNotExist('matching query does not exist.')

    def get_object_for_this_type(self, **kwargs):
        return self.vp_any('base', **kwargs)

    def get_all_objects_for_this_type(self, **kwargs):
        __vp__.unsupported('get_all_objects_for_this_type')

    def natural_key(self):
        return (self.app_label, self.model)


class AnyModel(object):
    """The model class of a content type the analysed code knows nothing about."""
    __vp_open__ = 'django.contrib.contenttypes.models'

    def __init__(self, ct):
        from django.core.exceptions import MultipleObjectsReturned, ObjectDoesNotExist
        self.DoesNotExist = ObjectDoesNotExist
        self.MultipleObjectsReturned = MultipleObjectsReturned
        self._base_manager = AnyManager(ct, 'base', {})
        self._default_manager = AnyManager(ct, 'default', {})
        self.objects = AnyManager(ct, 'objects', {})


class AnyManager(object):
    __vp_open__ = 'django.contrib.contenttypes.models'

    def __init__(self, ct, how, given):
        self.vp_ct = ct
        self.vp_how = how
        self.vp_given = given

    def using(self, alias):
        return self

    def all(self):
        return self

    def filter(self, **kwargs):
        d = dict(self.vp_given)
        d.update(kwargs)
        return AnyManager(self.vp_ct, self.vp_how, d)

    def get(self, **kwargs):
        d = dict(self.vp_given)
        d.update(kwargs)
        return self.vp_ct.vp_any(self.vp_how, **d)

    def first(self):
        from django.core.exceptions import ObjectDoesNotExist
        try:
            return self.get()
        except ObjectDoesNotExist:
            return None

    def __iter__(self):
        o = self.first()
        return iter([] if o is None else [o])
