from django.db.models.sql.query import Query
from django.db.models.sql.where import AND, OR
__vp_open__ = 'django.db.models.sql'
