"""Every part of a trigger backend rendered once."""
import __vp__
from django.apps import apps
from django.db import models


class Item(models.Model):
    title = models.CharField(max_length=10)

    class Meta:
        app_label = 'app'


def render(what):
    from denorm.db import triggers
    from denorm.models import DirtyInstance
    if what == 'random':
        return triggers.RandomBigInt().sql()
    if what == 'nested':
        return triggers.TriggerNestedSelect('links', ('1', 'x'), owner_id='NEW.id').sql()
    if what == 'insert':
        return triggers.TriggerActionInsert(model=DirtyInstance, columns=('content_type_id', 'object_id'), values=('1', 'NEW.id')).sql()
    if what == 'insert-nested':
        return triggers.TriggerActionInsert(
            model=DirtyInstance, columns=('content_type_id', 'object_id'),
            values=triggers.TriggerNestedSelect('links', ('1', 'x'), owner_id='NEW.id')).sql()
    if what in ('update', 'update-random'):
        return triggers.TriggerActionUpdate(
            model=Item, columns=('title',), values=(triggers.RandomBigInt() if what == 'update-random' else '1',), where='id = NEW.id').sql()
    if what.startswith('trigger-'):
        action = triggers.TriggerActionInsert(model=DirtyInstance, columns=('content_type_id', 'object_id'), values=('1', 'OLD.id'))
        return triggers.Trigger(Item, 'after', what[8:], [action], '1', None).sql()
    if what == 'set':
        action = triggers.TriggerActionInsert(model=DirtyInstance, columns=('content_type_id', 'object_id'), values=('1', 'NEW.id'))
        s = triggers.TriggerSet()
        s.append(triggers.Trigger(Item, 'after', 'update', [action], '1', None))
        s.append([triggers.Trigger(Item, 'after', 'insert', [action], '1', None)])
        __vp__.note('parts.begin')
        s.install()
        return len(s.triggers)
    s = triggers.TriggerSet()
    __vp__.note('parts.begin')
    s.drop()
    return 0


apps.models_ready = True
