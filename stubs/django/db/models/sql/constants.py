__vp_open__ = 'django.db.models.sql.constants'
INNER = 'INNER JOIN'
LOUTER = 'LEFT OUTER JOIN'
