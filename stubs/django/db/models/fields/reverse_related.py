from django.db.models.fields.mixins import FieldCacheMixin
__vp_open__ = 'django.db.models.fields.reverse_related'


class ForeignObjectRel(FieldCacheMixin):
    __vp_open__ = 'django.db.models.fields.reverse_related'
    __vp_absent__ = ('through_model', 'attname', 'column', 'denorm', 'to', 'rel', 'parent_model')
    auto_created = True
    concrete = False
    editable = False
    is_relation = True
    null = True

    def __init__(self, field, to, related_name=None, related_query_name=None,
                 limit_choices_to=None, parent_link=False, on_delete=None):
        self.field = field
        self.model = to
        self.related_name = related_name
        self.related_query_name = related_query_name
        self.limit_choices_to = {} if limit_choices_to is None else limit_choices_to
        self.parent_link = parent_link
        self.on_delete = on_delete
        self.symmetrical = False
        self.multiple = True

    @property
    def hidden(self):
        return self.is_hidden()

    @property
    def name(self):
        return self.field.related_query_name()

    @property
    def remote_field(self):
        return self.field

    @property
    def related_model(self):
        return self.field.model

    @property
    def many_to_many(self):
        return self.field.many_to_many

    @property
    def many_to_one(self):
        return self.field.one_to_many

    @property
    def one_to_many(self):
        return self.field.many_to_one

    @property
    def one_to_one(self):
        return self.field.one_to_one

    @property
    def db_type(self):
        return self.field.db_type

    def get_internal_type(self):
        return self.field.get_internal_type()

    def __repr__(self):
        return '<%s: %s.%s>' % (type(self).__name__, self.related_model._meta.app_label, self.related_model._meta.model_name)

    def is_hidden(self):
        return bool(self.related_name) and self.related_name[-1] == '+'

    def set_field_name(self):
        self.field_name = None

    def get_accessor_name(self, model=None):
        opts = model._meta if model else self.related_model._meta
        model = model or self.related_model
        if self.multiple:
            if self.symmetrical and model == self.model:
                return None
        if self.related_name:
            return self.related_name
        return opts.model_name + ('_set' if self.multiple else '')

    def get_cache_name(self):
        return self.get_accessor_name()


class ManyToOneRel(ForeignObjectRel):
    def __init__(self, field, to, field_name, related_name=None, related_query_name=None,
                 limit_choices_to=None, parent_link=False, on_delete=None):
        super().__init__(field, to, related_name=related_name, related_query_name=related_query_name,
                         limit_choices_to=limit_choices_to, parent_link=parent_link, on_delete=on_delete)
        self.field_name = field_name

    def get_related_field(self):
        return self.model._meta.get_field(self.field_name)

    def set_field_name(self):
        self.field_name = self.field_name or self.model._meta.pk.name


class OneToOneRel(ManyToOneRel):
    def __init__(self, field, to, field_name, related_name=None, related_query_name=None,
                 limit_choices_to=None, parent_link=False, on_delete=None):
        super().__init__(field, to, field_name, related_name=related_name, related_query_name=related_query_name,
                         limit_choices_to=limit_choices_to, parent_link=parent_link, on_delete=on_delete)
        self.multiple = False


class ManyToManyRel(ForeignObjectRel):
    def __init__(self, field, to, related_name=None, related_query_name=None, limit_choices_to=None,
                 symmetrical=True, through=None, through_fields=None, db_constraint=True):
        super().__init__(field, to, related_name=related_name, related_query_name=related_query_name,
                         limit_choices_to=limit_choices_to)
        self.through = through
        self.through_fields = through_fields
        self.symmetrical = symmetrical
        self.db_constraint = db_constraint

    def get_related_field(self):
        opts = self.through._meta
        if self.through_fields:
            field = opts.get_field(self.through_fields[0])
        else:
            for field in opts.fields:
                rel = getattr(field, 'remote_field', None)
                if rel and rel.model == self.model:
                    break
        return field.foreign_related_fields[0]
