__vp_open__ = 'django.db.models.sql.aggregates'
