__vp_open__ = 'django.db.models.constants'
LOOKUP_SEP = '__'
