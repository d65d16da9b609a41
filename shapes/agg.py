"""Count and sum fields over a reverse foreign key."""
import __vp__
from django.apps import apps
from django.db import models
from denorm import CountField
from denorm.fields import SumField

VARIANT = __vp__.config('variant', 'plain')
OPTS = {}
if __vp__.config('filter') is not None:
    OPTS['filter'] = dict(__vp__.config('filter'))
if __vp__.config('exclude') is not None:
    OPTS['exclude'] = dict(__vp__.config('exclude'))


class App:
    app_label = 'app'


class Visible(models.Manager):
    def get_queryset(self):
        return super(Visible, self).get_queryset().exclude(name='hidden')


if VARIANT == 'self':
    class Parent(models.Model):
        parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE, related_name='kids')
        n = models.IntegerField(null=True)
        active = models.NullBooleanField()
        kind = models.IntegerField()
        num = CountField('kids', **OPTS)
        total = SumField('kids', field='n', **OPTS)

        class Meta(App):
            pass
else:
    class Parent(models.Model):
        if VARIANT == 'keys':
            pkey = models.CharField(max_length=10, primary_key=True)
        elif VARIANT == 'code':
            code = models.CharField(max_length=10, unique=True)
        elif VARIANT == 'strict':
            number = models.AutoField(primary_key=True, db_column='Nr')
        name = models.CharField(max_length=10, null=True)
        if VARIANT == 'two':
            num = CountField('kids', **OPTS)
            num2 = CountField('others')
            total = SumField('kids', field='n', **OPTS)
            total2 = SumField('others', field='n')
        elif VARIANT == 'same':
            num = CountField('child_set', **OPTS)
            num2 = CountField('child_set', **(dict(filter={'kind__gte': 2}) if OPTS else {}))
            total = SumField('child_set', field='n', **OPTS)
            total2 = SumField('child_set', field='n', **(dict(exclude={'n': 5}) if OPTS else {}))
        elif VARIANT == 'named':
            num = CountField('kids', **OPTS)
            total = SumField('kids', field='n', **OPTS)
        elif VARIANT == 'strict':
            num = CountField('child_set', db_column='How Many', **OPTS)
            total = SumField('child_set', field='n', db_column='Sum', **OPTS)
        else:
            num = CountField('child_set', **OPTS)
            total = SumField('child_set', field='n', **OPTS)
        if __vp__.config('hidden'):
            objects = Visible()

        class Meta(App):
            if VARIANT == 'strict':
                db_table = 'Parents'

    class Child(models.Model):
        if VARIANT == 'keys':
            ckey = models.UUIDField(primary_key=True)
        elif VARIANT == 'strict':
            number = models.BigAutoField(primary_key=True, db_column='Child Nr')
        if VARIANT == 'two':
            parent = models.ForeignKey(Parent, null=True, on_delete=models.CASCADE, related_name='kids')
            other = models.ForeignKey(Parent, null=True, db_constraint=False, on_delete=models.DO_NOTHING, related_name='others')
        elif VARIANT == 'named':
            parent = models.ForeignKey(Parent, null=True, blank=True, db_index=False, on_delete=models.SET_NULL, related_name='kids')
        elif VARIANT == 'code':
            parent = models.ForeignKey(Parent, to_field='code', null=True, on_delete=models.CASCADE)
        elif VARIANT == 'strict':
            parent = models.ForeignKey(Parent, on_delete=models.PROTECT, db_column='belongs to')
        else:
            parent = models.ForeignKey(Parent, null=True, on_delete=models.CASCADE)
        n = models.IntegerField(null=True, **(dict(db_column='Amount') if VARIANT == 'strict' else {}))
        active = models.NullBooleanField()
        kind = models.IntegerField()

        class Meta(App):
            if VARIANT == 'strict':
                db_table = 'order'

    if VARIANT == 'third':
        class Third(models.Model):
            num = CountField('child_set', **OPTS)

            class Meta(App):
                pass

apps.models_ready = True
