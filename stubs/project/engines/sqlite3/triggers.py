from denorm.db.base import *
