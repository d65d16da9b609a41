from django.dispatch import Signal
__vp_open__ = 'django.core.signals'
request_started = Signal('request_started')
request_finished = Signal('request_finished')
got_request_exception = Signal('got_request_exception')
setting_changed = Signal('setting_changed')
