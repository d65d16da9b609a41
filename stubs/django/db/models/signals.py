from django.dispatch import ModelSignal, Signal
__vp_open__ = 'django.db.models.signals'
class_prepared = Signal('class_prepared')
pre_init = ModelSignal('pre_init')
post_init = ModelSignal('post_init')
pre_save = ModelSignal('pre_save')
post_save = ModelSignal('post_save')
pre_delete = ModelSignal('pre_delete')
post_delete = ModelSignal('post_delete')
m2m_changed = ModelSignal('m2m_changed')
pre_migrate = Signal('pre_migrate')
post_migrate = Signal('post_migrate')
