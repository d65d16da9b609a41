From 5a97bfe42c6c2a964c0e8a14a9882cd64482a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:59 +0000
Subject: [PATCH 01/41] fix: honour denorm_always_skip together with an
 explicit skip list

The expression 'skip or () + always' binds as 'skip or (() + always)'.
A declaration with its own skip list therefore ignored the model's
denorm_always_skip list.
---
 denorm/db/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9d1c7e4..cf180b8 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -100,7 +100,7 @@ class Trigger(object):
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
@@ -108,7 +108,7 @@ class Trigger(object):
             self.db_table = self.model._meta.db_table
             # FIXME: need to check get_parent_list and add triggers to those
             # The below will only check the fields on *this* model, not parents
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = []
             try:
                 from django.db.models.fields.related import ForeignObjectRel
-- 
2.43.0


From cbe84d4ea12ea33639d43673d52e09a74f5b854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:59 +0000
Subject: [PATCH 02/41] fix: watch the columns of every declaration when
 triggers are merged

Triggers of several declarations on one table and event are merged into
one. Only the column list of the first declaration was kept, so columns
skipped by it were ignored for all others.
---
 denorm/db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index cf180b8..d27ab8b 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -164,7 +164,9 @@ class TriggerSet(object):
         for trigger in triggers:
             name = trigger.name()
             if name in self.triggers:
-                self.triggers[name].append(trigger.actions)
+                existing = self.triggers[name]
+                existing.append(trigger.actions)
+                existing.fields.extend([f for f in trigger.fields if f not in existing.fields])
             else:
                 self.triggers[name] = trigger
 
-- 
2.43.0


From c9d6bd7ebcf8efcf8b615fdd6ce847ec89077031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:05 +0000
Subject: [PATCH 03/41] fix: honour skip lists and reverse one-to-one relations
 for generic relations

Triggers for a generic relation ignored both the declaration's skip list
and the related model's denorm_always_skip list. They also failed with
an AttributeError when another model has a one-to-one field to the
related model, because the reverse side was treated as a column.
---
 denorm/db/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index d27ab8b..1f90532 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -94,7 +94,13 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            related = remote_field_model(subject)
+            skip = tuple(skip or ()) + tuple(getattr(related, 'denorm_always_skip', ()))
+            self.fields = [
+                (k.attname, k.db_type(connection=self.connection))
+                for k, v in get_fields_with_model(related, related._meta)
+                if not v and k.concrete and k.attname not in skip
+            ]
             self.content_type_field = subject.content_type_field_name + '_id'
 
         elif isinstance(subject, models.ForeignKey):
-- 
2.43.0


From b30df12aa2522e7b63537ca443556b2e5dd08478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:37 +0000
Subject: [PATCH 04/41] fix: install triggers when the counted model is the
 last one loaded

The related manager only becomes available after the class_prepared
signal of the related model. It was looked up on later class_prepared
signals only, so installing failed with an AttributeError when no other
model was loaded after it.
---
 denorm/denorms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f102a0f..614a233 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -377,6 +377,10 @@ class AggregateDenorm(Denorm):
 
         qn = self.get_quote_name(using)
 
+        if not self.manager:
+            # no model was prepared after the related manager became available
+            self.manager = getattr(self.model, self.manager_name)
+
         try:  # Django>=1.9
             related_field = self.manager.field
         except AttributeError:
-- 
2.43.0


From a8ae7ed19165c4336eb6acbd783448dadbfbf60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:37 +0000
Subject: [PATCH 05/41] fix: group the content type condition of generic
 relation triggers

On PostgreSQL the condition 'changed AND old type OR new type' made
every update of a generically related row mark its object, also when
nothing had changed.
---
 denorm/db/postgresql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 9159809..8c9206b 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -102,7 +102,7 @@ class Trigger(base.Trigger):
         if ct_field:
             ct_field = qn(ct_field)
             if event == "UPDATE":
-                conditions.append("(OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s)" % {'ctf': ct_field, 'ct': content_type})
+                conditions.append("((OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s))" % {'ctf': ct_field, 'ct': content_type})
             elif event == "INSERT":
                 conditions.append("(NEW.%s = %s)" % (ct_field, content_type))
             elif event == "DELETE":
-- 
2.43.0


From f4cbe11e083165df6da84e60cb5cb516bfe3f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 06/41] fix: save new objects with an explicit primary key that
 have a count field

Saving such an object raised IndexError, because its row was looked up before it existed.
The lookup also missed rows that are hidden by a custom default manager.
---
 denorm/fields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index b8acb2a..874eff5 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -168,11 +168,13 @@ class AggregateField(models.PositiveIntegerField):
             value = 0
         else:
             # if we're updating, get the most recent value from the DB
-            value = self.denorm.model.objects.filter(
+            values = self.denorm.model._base_manager.filter(
                 pk=model_instance.pk,
             ).values_list(
                 self.attname, flat=True,
-            )[0]
+            )[:1]
+            # there is no row yet if a new instance got an explicit primary key
+            value = values[0] if values else 0
 
         setattr(model_instance, self.attname, value)
         return value
-- 
2.43.0


From 5c3b5f8e8034845e4f135032409c53bdd745ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 07/41] fix: count NULL as zero in sum fields

A child row with a NULL value turned the whole sum into NULL.
---
 denorm/denorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 614a233..ae84416 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -473,12 +473,12 @@ class SumDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + NEW.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - OLD.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
-- 
2.43.0


From f154b79893871cdb9342e2a39cbba8e2b90c2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 08/41] fix: flush marked objects whose truth value is false

Objects of models that define __bool__ or __len__ lost their marker without being saved.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index ae84416..3ae5395 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -630,7 +630,7 @@ def flush(verbose=False):
             if verbose:
                 i += 1
                 print("flushing %s of %s all dirty instances" % (i, size))
-            if dirty_instance.content_object:
+            if dirty_instance.content_object is not None:
                 dirty_instance.content_object.save()
 
             DirtyInstance.objects.filter(
-- 
2.43.0


From a30fa23d5cb331e0be23ba85c0fac8c98f7fa7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 09/41] fix: give every model its own bookkeeping for inherited
 count fields

Models inheriting a count or sum field from an abstract model shared one object.
Only the last of them had working triggers.
---
 denorm/fields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 874eff5..def7820 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import copy
 from django.db import models, connection
 from . import denorms
 from django.conf import settings
@@ -142,6 +143,8 @@ class AggregateField(models.PositiveIntegerField):
         super(AggregateField, self).__init__(**kwargs)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # a field inherited from an abstract model is shared with other models
+        self.denorm = copy.copy(self.denorm)
         self.denorm.model = cls
         self.denorm.fieldname = name
         models.signals.class_prepared.connect(self.denorm.setup)
-- 
2.43.0


From ba0c399db31fd1ce7b769bca196213022a685166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 10/41] fix: give every model its own dependencies of inherited
 cache keys

Models inheriting a cache key from an abstract model shared the dependency objects.
The triggers of all but one of them updated the wrong table.
---
 denorm/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index def7820..5f57a55 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -276,6 +276,8 @@ class CacheKeyField(models.BigIntegerField):
         self.dependencies.append(CacheKeyDependOnRelated(*args, **kwargs))
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # a field inherited from an abstract model is shared with other models
+        self.dependencies = [copy.copy(depend) for depend in self.dependencies]
         for depend in self.dependencies:
             depend.fieldname = name
         self.denorm = denorms.BaseCacheKeyDenorm(depend_on_related=self.dependencies)
-- 
2.43.0


From 02cccd64ee76eb013c5939ec7d30f2c2b11e924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 11/41] fix: resolve cache key dependencies when their own
 model is complete

They were resolved whenever any model was prepared.
That failed if it happened before all fields of the own model were known.
---
 denorm/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 5f57a55..5301a2b 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -283,7 +283,7 @@ class CacheKeyField(models.BigIntegerField):
         self.denorm = denorms.BaseCacheKeyDenorm(depend_on_related=self.dependencies)
         self.denorm.model = cls
         self.denorm.fieldname = name
-        models.signals.class_prepared.connect(self.denorm.setup)
+        models.signals.class_prepared.connect(self.denorm.setup, sender=cls)
         super(CacheKeyField, self).contribute_to_class(cls, name, *args, **kwargs)
 
     def pre_save(self, model_instance, add):
-- 
2.43.0


From e272881f48eca8d91e6c1a2f6ab37adcd399e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 12/41] fix: install the triggers of denormalized many-to-many
 fields

---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 3ae5395..7793cdf 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -70,7 +70,7 @@ def get_alldenorms():
     alldenorms = []
     for model in gmodels.get_models(include_auto_created=True):
         if not model._meta.proxy:
-            for field in model._meta.fields:
+            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                 if hasattr(field, 'denorm'):
                     if not field.denorm.model._meta.swapped:
                         alldenorms.append(field.denorm)
-- 
2.43.0


From 2e8779c80d2a3f14ebd4672df077e1c9a8c6c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 13/41] fix: do not share cached values between objects without
 a cache key

All objects that still had the default key 0 read the same cache entry.
---
 denorm/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 5301a2b..8922251 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -306,6 +306,10 @@ class CacheWrapper(object):
         self.field = field
 
     def __set__(self, obj, value):
+        if not value:
+            # no key was generated yet, so there is nothing to share
+            obj.__dict__[self.field.name] = self.field.func(obj)
+            return
         key = 'CachedField_%s' % value
         cached = self.field.cache.get(key)
         if not cached:
-- 
2.43.0


From d42835bc0069b6b3bf27c4bc4c6463c0a0519dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 14/41] fix: allow cached functions without dependencies

---
 denorm/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 8922251..c0a0895 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -324,7 +324,7 @@ class CachedField(CacheKeyField):
         self.cache = cache
         super(CachedField, self).__init__(*args, **kwargs)
         if func and cache:
-            for c, a, kw in self.func.depend:
+            for c, a, kw in getattr(self.func, 'depend', []):
                 self.depend_on_related(*a, **kw)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
-- 
2.43.0


From ef3bad4a1f2003a38fab2fc50019b0d3b3e05e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 15/41] fix: let migrations load objects of models with a
 cached function

The field that migrations rebuild has no function and no cache.
---
 denorm/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index c0a0895..acccc17 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -329,7 +329,8 @@ class CachedField(CacheKeyField):
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
-        setattr(cls, self.name, CacheWrapper(self))
+        if self.func:
+            setattr(cls, self.name, CacheWrapper(self))
 
 
 def cached(cache, *args, **kwargs):
-- 
2.43.0


From e0427e33a2a2750e5aa69724b9f3dad5eb88feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 16/41] fix: allow running denorm_init again

Existing triggers are replaced instead of raising an error.
---
 denorm/management/commands/denorm_init.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/denorm/management/commands/denorm_init.py b/denorm/management/commands/denorm_init.py
index e813964..05a12db 100644
--- a/denorm/management/commands/denorm_init.py
+++ b/denorm/management/commands/denorm_init.py
@@ -20,4 +20,5 @@ class Command(BaseCommand):
 
     def handle(self, **options):
         using = options['database']
+        denorms.drop_triggers(using=using)
         denorms.install_triggers(using=using)
-- 
2.43.0


From c0386d4648489f591c2b4d11d796d07f7579edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 17/41] fix: only drop triggers whose name starts with
 'denorm_'

Triggers of others, such as 'denormalise_x', were dropped too.
---
 denorm/db/postgresql/triggers.py | 3 +++
 denorm/db/sqlite3/triggers.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 8c9206b..2e85224 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -138,6 +138,9 @@ class TriggerSet(base.TriggerSet):
         cursor = self.cursor()
         cursor.execute("SELECT pg_class.relname, pg_trigger.tgname FROM pg_trigger LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE pg_trigger.tgname LIKE 'denorm_%%';")
         for table_name, trigger_name in cursor.fetchall():
+            # the underscore of LIKE matches any character
+            if not trigger_name.startswith('denorm_'):
+                continue
             cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
 
     def drop(self):
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 576e110..0cfda62 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -113,6 +113,9 @@ class TriggerSet(base.TriggerSet):
 
         cursor.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger' AND name LIKE 'denorm_%%';")
         for trigger_name, table_name in cursor.fetchall():
+            # LIKE ignores case, and its underscore matches any character
+            if not trigger_name.startswith('denorm_'):
+                continue
             cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
 
     def drop(self):
-- 
2.43.0


From a7a8ccf72274357e0ecda01bc30e6d9368935c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 18/41] fix: flush once when the daemon is run with -o

---
 denorm/management/commands/denorm_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 24b4d47..e81a7f0 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -82,7 +82,7 @@ class Command(BaseCommand):
             from denorm import daemon
             daemon.daemonize(noClose=True, pidfile=pidfile)
 
-        while not run_once:
+        while True:
             try:
                 denorms.flush()
                 sleep(interval)
-- 
2.43.0


From 58f7d3b1bde3d66875477f7e391de3f8ddef2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 19/41] fix: start the daemon on Python 3.7 and later

The os module no longer has an errno attribute.
---
 denorm/management/commands/denorm_daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index e81a7f0..613427e 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -1,3 +1,4 @@
+import errno
 import os
 import sys
 import django
@@ -61,7 +62,7 @@ class Command(BaseCommand):
             self.stderr.write(self.style.ERROR("daemon already running as pid: %s\n" % (pid,)))
             return True
         except OSError as err:
-            return err.errno == os.errno.EPERM
+            return err.errno == errno.EPERM
         except IOError as err:
             if err.errno == 2:
                 return False
-- 
2.43.0


From 8f4fb950848c514e68bb43e5bc895c53f91ef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 20/41] fix: write the pid file on Python 3

---
 denorm/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/daemon.py b/denorm/daemon.py
index a058937..0bda534 100644
--- a/denorm/daemon.py
+++ b/denorm/daemon.py
@@ -151,7 +151,8 @@ def daemonize(noClose=False, pidfile=None):
             # Original child. Exit.
             if pidfile:
                 print(pid)
-                file(pidfile, "w").write(str(pid))
+                with open(pidfile, "w") as f:
+                    f.write(str(pid))
             os._exit(0)
 
         # This is the second child. Set the umask.
-- 
2.43.0


From 256713dbaac26598a77210457b7d9057ae4322ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 21/41] fix: install and drop triggers in a transaction of the
 chosen database

---
 denorm/db/postgresql/triggers.py | 4 ++--
 denorm/db/sqlite3/triggers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 2e85224..60e6580 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -145,7 +145,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -162,7 +162,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 0cfda62..86ab596 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -120,7 +120,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -135,7 +135,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
-- 
2.43.0


From fc42ab99003362af918bbcba048b4fa8a362983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:16 +0000
Subject: [PATCH 22/41] fix: rebuild rows that are hidden by a default manager

Models without a manager called objects made the rebuild fail.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 7793cdf..a9a9c9f 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -562,7 +562,7 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
                 i += 1
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
-        for instance in model.objects.all():
+        for instance in model._base_manager.all():
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From 646f60604cb420b05772dcf3b477cc85789c025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:17 +0000
Subject: [PATCH 23/41] fix: accept a model name in denorm_rebuild

The command had such a parameter, but it could not be given.
---
 denorm/management/commands/denorm_rebuild.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/management/commands/denorm_rebuild.py b/denorm/management/commands/denorm_rebuild.py
index d401631..9813e3f 100644
--- a/denorm/management/commands/denorm_rebuild.py
+++ b/denorm/management/commands/denorm_rebuild.py
@@ -5,6 +5,10 @@ from denorm import denorms
 class Command(BaseCommand):
     help = "Recalculates the value of every single denormalized model field in the whole project."
 
+    def add_arguments(self, parser):
+        parser.add_argument('model_name', nargs='?', default=None,
+            help='Restricts the rebuild to an application, a model or an app.Model.')
+
     def handle(self, model_name=None, *args, **kwargs):
         verbosity = int((kwargs.get('verbosity', 0)))
         denorms.rebuildall(verbose=verbosity > 1, model_name=model_name)
-- 
2.43.0


From dc45028a067eff219a42f97172811c843a04a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:17 +0000
Subject: [PATCH 24/41] fix: forget the cached object when a denormalized
 foreign key returns a key

---
 denorm/fields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index acccc17..916ebef 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -77,6 +77,9 @@ def denormalized(DBField, *args, **kwargs):
                 setattr(model_instance, self.name, value)
                 return getattr(model_instance, self.attname)
             else:
+                if related_field_model and hasattr(self, 'is_cached') and self.is_cached(model_instance):
+                    # the cached object may belong to an other key
+                    self.delete_cached_value(model_instance)
                 setattr(model_instance, self.attname, value)
                 return value
 
-- 
2.43.0


From bac563d651d7160254e79ad74cdd0f86f58f8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:18 +0000
Subject: [PATCH 25/41] fix: watch columns by their database names

Triggers on models with a custom db_column referred to columns that do not exist.
---
 denorm/db/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 1f90532..8616a20 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -97,17 +97,17 @@ class Trigger(object):
             related = remote_field_model(subject)
             skip = tuple(skip or ()) + tuple(getattr(related, 'denorm_always_skip', ()))
             self.fields = [
-                (k.attname, k.db_type(connection=self.connection))
+                (k.column, k.db_type(connection=self.connection))
                 for k, v in get_fields_with_model(related, related._meta)
                 if not v and k.concrete and k.attname not in skip
             ]
-            self.content_type_field = subject.content_type_field_name + '_id'
+            self.content_type_field = related._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
             skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
             self.model = subject
@@ -125,7 +125,7 @@ class Trigger(object):
                     pass
                 else:
                     if not v and k.attname not in skip:
-                        self.fields.append((k.attname, k.db_type(connection=self.connection)))
+                        self.fields.append((k.column, k.db_type(connection=self.connection)))
 
         else:
             raise NotImplementedError
-- 
2.43.0


From 2b6aca247c0e89f28faf537edbbe808fdc24470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:18 +0000
Subject: [PATCH 26/41] fix: use database column names in triggers of count and
 sum fields

---
 denorm/denorms.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index a9a9c9f..af4db92 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -320,6 +320,12 @@ class AggregateDenorm(Denorm):
         if not self.manager and hasattr(self.model, str(self.manager_name)):
             self.manager = getattr(self.model, self.manager_name)
 
+    def get_column(self):
+        """
+        Returns the name of the database column of this denorm
+        """
+        return self.model._meta.get_field(self.fieldname).column
+
     def get_related_where(self, fk_name, using, type):
         qn = self.get_quote_name(using)
 
@@ -349,13 +355,13 @@ class AggregateDenorm(Denorm):
         related_dec_where, related_where_params = self.get_related_where(fk_name, using, 'OLD')
         related_increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_related_increment_value(using),),
             where=(' AND '.join(related_inc_where), related_where_params),
         )
         related_decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_related_decrement_value(using),),
             where=(' AND '.join(related_dec_where), related_where_params),
         )
@@ -396,7 +402,7 @@ class AggregateDenorm(Denorm):
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
             pk_name = qn(self.model._meta.pk.get_attname_column()[1])
-            fk_name = qn(related_field.attname)
+            fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
 
@@ -425,13 +431,13 @@ class AggregateDenorm(Denorm):
             # create the triggers for the incremental updates
         increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_increment_value(using),),
             where=(' AND '.join(inc_where), where_params),
         )
         decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_decrement_value(using),),
             where=(' AND '.join(dec_where), where_params),
         )
@@ -470,15 +476,25 @@ class SumDenorm(AggregateDenorm):
         self.sum_field = field
         self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(Sum(self.sum_field)).values()[0] or 0)
 
+    def get_sum_column(self):
+        """
+        Returns the name of the database column that gets summed up
+        """
+        if hasattr(self.manager, "field"):  # Django>=1.9
+            related_model = self.manager.field.model
+        else:
+            related_model = self.manager.related.related_model
+        return related_model._meta.get_field(self.sum_field).column
+
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -491,7 +507,7 @@ class SumDenorm(AggregateDenorm):
         related_query.clear_ordering(force_empty=True)
         related_query.default_cols = False
         related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        return "%s + (%s)" % (qn(self.fieldname), related_filter_where)
+        return "%s + (%s)" % (qn(self.get_column()), related_filter_where)
 
     def get_related_decrement_value(self, using):
         qn = self.get_quote_name(using)
@@ -504,7 +520,7 @@ class SumDenorm(AggregateDenorm):
         related_query.clear_ordering(force_empty=True)
         related_query.default_cols = False
         related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        return "%s - (%s)" % (qn(self.fieldname), related_filter_where)
+        return "%s - (%s)" % (qn(self.get_column()), related_filter_where)
 
 
 class CountDenorm(AggregateDenorm):
@@ -523,12 +539,12 @@ class CountDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + 1" % qn(self.fieldname)
+        return "%s + 1" % qn(self.get_column())
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - 1" % qn(self.fieldname)
+        return "%s - 1" % qn(self.get_column())
 
     def get_related_increment_value(self, using):
         return self.get_increment_value(using)
-- 
2.43.0


From fea9ef794e46d26414398d195a12d4091553c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:18 +0000
Subject: [PATCH 27/41] fix: use database column names in triggers of cache
 keys

---
 denorm/denorms.py      |  2 +-
 denorm/dependencies.py | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index af4db92..a3bb76e 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -251,7 +251,7 @@ class CacheKeyDenorm(BaseCacheKeyDenorm):
         from .db import triggers
         action = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.model._meta.get_field(self.fieldname).column,),
             values=(triggers.RandomBigInt(),),
             where="%s = NEW.%s" % ((qn(self.model._meta.pk.get_attname_column()[1]),) * 2),
         )
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 7f4802e..761911c 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -94,6 +94,12 @@ class DependOnRelated(DenormDependency):
 
 class CacheKeyDependOnRelated(DependOnRelated):
 
+    def get_column(self):
+        """
+        Returns the name of the database column of the cache key
+        """
+        return self.this_model._meta.get_field(self.fieldname).column
+
     def get_triggers(self, using):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
@@ -110,7 +116,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # may be related to one instance of ``other_model``
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -119,7 +125,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -140,7 +146,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # are affected, otherwise only the one it is pointing to is affected.
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -149,7 +155,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -185,7 +191,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # to the intermediate table.
             action_m2m_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -194,7 +200,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_m2m_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -224,7 +230,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 ).sql()
                 action_new = triggers.TriggerActionUpdate(
                     model=self.this_model,
-                    columns=(self.fieldname,),
+                    columns=(self.get_column(),),
                     values=(triggers.RandomBigInt(),),
                     where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
                 )
-- 
2.43.0


From 7d2552bc16a03850dde4e640e240e795c38eddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:18 +0000
Subject: [PATCH 28/41] fix: use the database column of the object id of
 generic relations

---
 denorm/dependencies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 761911c..7014c07 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -180,11 +180,11 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = self.field.object_id_field_name
+                    column_name = self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column
                     reverse_column_name = self.field.remote_field.model._meta.pk.column
                 if "backward" in self.type:
                     column_name = self.field.remote_field.model._meta.pk.column
-                    reverse_column_name = self.field.object_id_field_name
+                    reverse_column_name = self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column
 
             # The first part of a M2M dependency is exactly like a backward
             # ForeignKey dependency. ``this_model`` is backward FK related
@@ -360,11 +360,11 @@ class CallbackDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = qn(self.field.object_id_field_name)
+                    column_name = qn(remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column)
                     reverse_column_name = remote_field_model(self.field)._meta.pk.column
                 if "backward" in self.type:
                     column_name = qn(remote_field_model(self.field)._meta.pk.column)
-                    reverse_column_name = self.field.object_id_field_name
+                    reverse_column_name = remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column
 
             # The first part of a M2M dependency is exactly like a backward
             # ForeignKey dependency. ``this_model`` is backward FK related
-- 
2.43.0


From 2391fd56654678229486299f2f57949bf52e6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:18 +0000
Subject: [PATCH 29/41] fix: quote table, column and trigger names in trigger
 SQL

Models whose table or column names are reserved words or contain capital letters made the installation fail.
---
 denorm/db/mysql/triggers.py      | 19 ++++++++++++-------
 denorm/db/postgresql/triggers.py | 25 +++++++++++++++----------
 denorm/db/sqlite3/triggers.py    | 21 ++++++++++++---------
 denorm/dependencies.py           | 12 ++++++------
 4 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 7ad85b7..78cb7f6 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -1,5 +1,6 @@
 import random
 import string
+from django.db import connection
 from denorm.db import base
 
 
@@ -12,16 +13,18 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 
     def sql(self):
         columns = self.columns
-        table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        qn = connection.ops.quote_name
+        table = qn(self.table)
+        where = ", ".join(["%s = %s" % (qn(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
-        columns = "(" + ", ".join(self.columns) + ")"
+        qn = connection.ops.quote_name
+        table = qn(self.model._meta.db_table)
+        columns = "(" + ", ".join([qn(c) for c in self.columns]) + ")"
         params = []
         if isinstance(self.values, TriggerNestedSelect):
             sql, nested_params = self.values.sql()
@@ -36,8 +39,9 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
-        updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
+        qn = connection.ops.quote_name
+        table = qn(self.model._meta.db_table)
+        updates = ", ".join(["%s = %s" % (qn(k), v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
         else:
@@ -57,6 +61,7 @@ class Trigger(base.Trigger):
                 random.choice(string.ascii_uppercase + string.digits)
                 for x in range(5)
             )
+        name = qn(name)
         params = []
         action_list = []
         actions_added = set()
@@ -73,7 +78,7 @@ class Trigger(base.Trigger):
 
         # FIXME: actions should depend on content_type and content_type_field, if applicable
         # now we flag too many things dirty, e.g. a change for ('forum', 1) also flags ('post', 1)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
 
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 60e6580..9319c0e 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -1,4 +1,4 @@
-from django.db import transaction
+from django.db import connection, transaction
 from denorm.db import base
 from django.db.backends.utils import truncate_name
 
@@ -12,16 +12,18 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 
     def sql(self):
         columns = self.columns
-        table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        qn = connection.ops.quote_name
+        table = qn(self.table)
+        where = ", ".join(["%s = %s" % (qn(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
-        columns = "(" + ", ".join(self.columns) + ")"
+        qn = connection.ops.quote_name
+        table = qn(self.model._meta.db_table)
+        columns = "(" + ", ".join([qn(c) for c in self.columns]) + ")"
         params = []
         if isinstance(self.values, TriggerNestedSelect):
             sql, nested_params = self.values.sql()
@@ -43,9 +45,10 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
+        qn = connection.ops.quote_name
+        table = qn(self.model._meta.db_table)
         params = []
-        updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
+        updates = ", ".join(["%s = %s" % (qn(k), v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
         else:
@@ -65,6 +68,8 @@ class Trigger(base.Trigger):
         qn = self.connection.ops.quote_name
 
         name = truncate_name(self.name(), self.connection.ops.max_name_length() - 5)
+        func_name = qn('func_%s' % name)
+        name = qn(name)
         params = []
         action_list = []
         actions_added = set()
@@ -78,7 +83,7 @@ class Trigger(base.Trigger):
                     actions_added.add((sql, action_params))
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
         content_type = self.content_type
@@ -118,7 +123,7 @@ class Trigger(base.Trigger):
             actions = "\n        ".join(action_list)
 
         sql = """
-CREATE OR REPLACE FUNCTION func_%(name)s()
+CREATE OR REPLACE FUNCTION %(func_name)s()
     RETURNS TRIGGER AS $$
     BEGIN
         %(actions)s
@@ -127,7 +132,7 @@ CREATE OR REPLACE FUNCTION func_%(name)s()
 $$ LANGUAGE plpgsql;
 CREATE TRIGGER %(name)s
     %(time)s %(event)s ON %(table)s
-    FOR EACH ROW EXECUTE PROCEDURE func_%(name)s();
+    FOR EACH ROW EXECUTE PROCEDURE %(func_name)s();
 """ % locals()
         return sql, params
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 86ab596..d739a7f 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -1,4 +1,4 @@
-from django.db import transaction
+from django.db import connection, transaction
 from denorm.db import base
 
 import logging
@@ -16,16 +16,18 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 
     def sql(self):
         columns = self.columns
-        table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        qn = connection.ops.quote_name
+        table = qn(self.table)
+        where = ", ".join(["%s = %s" % (qn(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
-        columns = "(" + ", ".join(self.columns) + ")"
+        qn = connection.ops.quote_name
+        table = qn(self.model._meta.db_table)
+        columns = "(" + ", ".join([qn(c) for c in self.columns]) + ")"
         if isinstance(self.values, TriggerNestedSelect):
             sql, params = self.values.sql()
             values = "" + sql + ""
@@ -39,8 +41,9 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
-        updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
+        qn = connection.ops.quote_name
+        table = qn(self.model._meta.db_table)
+        updates = ", ".join(["%s = %s" % (qn(k), v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
         else:
@@ -60,7 +63,7 @@ class Trigger(base.Trigger):
     def sql(self):
         qn = self.connection.ops.quote_name
 
-        name = self.name()
+        name = qn(self.name())
         params = []
         action_list = []
         actions_added = set()
@@ -75,7 +78,7 @@ class Trigger(base.Trigger):
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
         actions = "\n        ".join(action_list)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
         content_type = self.content_type
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 7014c07..3c09990 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -225,14 +225,14 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 # same m2m_table and model table.
                 sql, params = triggers.TriggerNestedSelect(
                     self.field.m2m_db_table(),
-                    (column_name,),
+                    (qn(column_name),),
                     **{reverse_column_name: 'NEW.%s' % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 ).sql()
                 action_new = triggers.TriggerActionUpdate(
                     model=self.this_model,
                     columns=(self.get_column(),),
                     values=(triggers.RandomBigInt(),),
-                    where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
+                    where=(qn(self.this_model._meta.pk.get_attname_column()[1]) + ' IN (' + sql + ')', params),
                 )
                 trigger_list.append(triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip))
 
@@ -298,7 +298,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=triggers.TriggerNestedSelect(
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
-                        self.this_model._meta.pk.get_attname_column()[1]),
+                        qn(self.this_model._meta.pk.get_attname_column()[1])),
                     **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 )
             )
@@ -308,7 +308,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=triggers.TriggerNestedSelect(
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
-                        self.this_model._meta.pk.get_attname_column()[1]),
+                        qn(self.this_model._meta.pk.get_attname_column()[1])),
                     **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 )
             )
@@ -330,7 +330,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=triggers.TriggerNestedSelect(
                     self.field.model._meta.db_table,
                     (content_type,
-                        self.field.get_attname_column()[1]),
+                        qn(self.field.get_attname_column()[1])),
                     **{self.field.model._meta.pk.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 )
             )
@@ -339,7 +339,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 columns=("content_type_id", "object_id"),
                 values=(
                     content_type,
-                    "OLD.%s" % self.field.get_attname_column()[1],
+                    "OLD.%s" % qn(self.field.get_attname_column()[1]),
                 ),
             )
             return [
-- 
2.43.0


From 04c67e11417144e0349466a3a583117665fc1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:49 +0000
Subject: [PATCH 30/41] fix: allow relation columns called 'table' or 'columns'

---
 denorm/db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 8616a20..f559a28 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -8,7 +8,9 @@ class RandomBigInt(object):
 
 
 class TriggerNestedSelect:
-    def __init__(self, table, columns, **kwargs):
+    def __init__(*args, **kwargs):
+        # keywords are column names, which may also be 'table' or 'columns'
+        self, table, columns = args
         self.table = table
         self.columns = ", ".join(columns)
         self.kwargs = kwargs
-- 
2.43.0


From 2b974eb8293472da4e497cfbd594ce2e6d97943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:43 +0000
Subject: [PATCH 31/41] fix: keep triggers of different generic foreign keys
 apart

Two generic relations to the same model through different content type columns were merged into one trigger.
It only checked the first of the two columns.
---
 denorm/db/postgresql/triggers.py | 2 +-
 denorm/db/sqlite3/triggers.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 9319c0e..f2647ba 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -61,7 +61,7 @@ class Trigger(base.Trigger):
     def name(self):
         name = base.Trigger.name(self)
         if self.content_type_field:
-            name += "_%s" % self.content_type
+            name += "_%s_%s" % (self.content_type_field, self.content_type)
         return name
 
     def sql(self):
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index d739a7f..534352c 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -57,7 +57,7 @@ class Trigger(base.Trigger):
     def name(self):
         name = base.Trigger.name(self)
         if self.content_type_field:
-            name += "_%s" % self.content_type
+            name += "_%s_%s" % (self.content_type_field, self.content_type)
         return name
 
     def sql(self):
-- 
2.43.0


From 58feba7865b98e06a93fd833126f413a9a2810a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:48 +0000
Subject: [PATCH 32/41] fix: reject exclude conditions of aggregate fields on
 SQLite

SQLite triggers cannot use statement parameters.
A field with an exclude condition made installing the triggers fail.
It is now rejected like a field with a filter.
---
 denorm/fields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 916ebef..920f5a6 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -133,9 +133,9 @@ class AggregateField(models.PositiveIntegerField):
         """
         skip = kwargs.pop('skip', None)
         qs_filter = kwargs.pop('filter', {})
-        if qs_filter and connection.vendor == "sqlite":
-            raise NotImplementedError('filters for aggregate fields are currently not supported for sqlite')
         qs_exclude = kwargs.pop('exclude', {})
+        if (qs_filter or qs_exclude) and connection.vendor == "sqlite":
+            raise NotImplementedError('filters for aggregate fields are currently not supported for sqlite')
         self.denorm = self.get_denorm(skip)
         self.denorm.manager_name = manager_name
         self.denorm.filter = qs_filter
-- 
2.43.0


From adb78c140941caacab8f5f5e0d5f559845189162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:06 +0000
Subject: [PATCH 33/41] fix: start the daemon when its pid file holds no number

An empty or damaged pid file made the command fail with a ValueError.
---
 denorm/management/commands/denorm_daemon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 613427e..f000ab3 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -61,6 +61,8 @@ class Command(BaseCommand):
             os.kill(pid, 0)
             self.stderr.write(self.style.ERROR("daemon already running as pid: %s\n" % (pid,)))
             return True
+        except ValueError:
+            return False
         except OSError as err:
             return err.errno == errno.EPERM
         except IOError as err:
-- 
2.43.0


From eff71ddb7c62022163d697c1c05e9208e51c5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:26 +0000
Subject: [PATCH 34/41] fix: fill computed many-to-many fields of instances
 with a false primary key

---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index a3bb76e..f7ab0be 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -19,7 +19,7 @@ def many_to_many_pre_save(sender, instance, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
-    if instance.pk:
+    if instance.pk is not None:
         # Need a primary key to do m2m stuff
         for m2m in sender._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
-- 
2.43.0


From f1ea646032794e205b95a505a050e316c437023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:39 +0000
Subject: [PATCH 35/41] fix: fill computed many-to-many fields after saving a
 new instance with a given primary key

---
 denorm/denorms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f7ab0be..52b25f8 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -19,7 +19,10 @@ def many_to_many_pre_save(sender, instance, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
-    if instance.pk is not None:
+    if instance.pk is not None and instance._state.adding:
+        # there may be no row yet, so this has to wait until it got saved
+        instance._state.denorm_resave = True
+    elif instance.pk is not None:
         # Need a primary key to do m2m stuff
         for m2m in sender._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
@@ -52,7 +55,8 @@ def many_to_many_pre_save(sender, instance, **kwargs):
 
 
 def many_to_many_post_save(sender, instance, created, **kwargs):
-    if created:
+    waiting = instance._state.__dict__.pop('denorm_resave', False)
+    if created or waiting:
         def check_resave():
             for m2m in sender._meta.local_many_to_many:
                 if hasattr(m2m, 'denorm'):
-- 
2.43.0


From 84ea9a69277015f0fb4c4842d1a29077069eff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:56 +0000
Subject: [PATCH 36/41] fix: fill computed many-to-many fields when saving
 proxies and child models

---
 denorm/denorms.py | 4 ++--
 denorm/fields.py  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 52b25f8..439bb2f 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -24,7 +24,7 @@ def many_to_many_pre_save(sender, instance, **kwargs):
         instance._state.denorm_resave = True
     elif instance.pk is not None:
         # Need a primary key to do m2m stuff
-        for m2m in sender._meta.local_many_to_many:
+        for m2m in sender._meta.many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
                 # Does some extra jiggery-pokery for "through" m2m models.
@@ -58,7 +58,7 @@ def many_to_many_post_save(sender, instance, created, **kwargs):
     waiting = instance._state.__dict__.pop('denorm_resave', False)
     if created or waiting:
         def check_resave():
-            for m2m in sender._meta.local_many_to_many:
+            for m2m in sender._meta.many_to_many:
                 if hasattr(m2m, 'denorm'):
                     return True
             return False
diff --git a/denorm/fields.py b/denorm/fields.py
index 920f5a6..a0b7e6e 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -49,9 +49,9 @@ def denormalized(DBField, *args, **kwargs):
             self.denorm.fieldname = name
             self.field_args = (args, kwargs)
             models.signals.class_prepared.connect(self.denorm.setup, sender=cls)
-            # Add The many to many signal for this class
-            models.signals.pre_save.connect(denorms.many_to_many_pre_save, sender=cls)
-            models.signals.post_save.connect(denorms.many_to_many_post_save, sender=cls)
+            # Add The many to many signal for this class, its children and its proxies
+            models.signals.pre_save.connect(denorms.many_to_many_pre_save)
+            models.signals.post_save.connect(denorms.many_to_many_post_save)
             DBField.contribute_to_class(self, cls, name, *args, **kwargs)
 
         def pre_save(self, model_instance, add):
-- 
2.43.0


From 4ad816ef7f458eeeb8be198be3637edbe443f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:48 +0000
Subject: [PATCH 37/41] fix: find relations declared by name that are not
 resolved yet

---
 denorm/helpers.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/denorm/helpers.py b/denorm/helpers.py
index 54d2be7..38f7a26 100644
--- a/denorm/helpers.py
+++ b/denorm/helpers.py
@@ -12,6 +12,20 @@ def remote_field_model(field):
     if hasattr(field, 'rel') and field.rel:
         return field.rel.to
 
+
+def points_to(field, model):
+    """
+    Is 'field' a relation to 'model'?
+    """
+    remote_model = remote_field_model(field)
+    if isinstance(remote_model, six.string_types):
+        # declared by name and not resolved yet
+        if '.' not in remote_model:
+            remote_model = '%s.%s' % (field.model._meta.app_label, remote_model)
+        return remote_model.lower() == ('%s.%s' % (model._meta.app_label, model._meta.object_name)).lower()
+    return repr(remote_model).lower() == repr(model).lower()
+
+
 def find_fks(from_model, to_model, fk_name=None):
     """
     Finds all ForeignKeys on 'from_model' pointing to 'to_model'.
@@ -21,7 +35,7 @@ def find_fks(from_model, to_model, fk_name=None):
     fkeys = [x for x in from_model._meta.fields if isinstance(x, models.ForeignKey)]
 
     # filter out all FKs not pointing to 'to_model'
-    fkeys = [x for x in fkeys if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    fkeys = [x for x in fkeys if points_to(x, to_model)]
 
     # if 'fk_name' was given, filter out all FKs not matching that name, leaving
     # only one (or none)
@@ -45,7 +59,7 @@ def find_m2ms(from_model, to_model, m2m_name=None):
     m2ms = list(from_model._meta.many_to_many) + private_fields
 
     # filter out all M2Ms not pointing to 'to_model'
-    m2ms = [x for x in m2ms if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    m2ms = [x for x in m2ms if points_to(x, to_model)]
 
     # if 'm2m_name' was given, filter out all M2Ms not matching that name, leaving
     # only one (or none)
-- 
2.43.0


From 5c8f22317e88b0456bcd6886fdf292808fcff494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:03 +0000
Subject: [PATCH 38/41] fix: mark rows related by foreign keys that do not
 refer to the primary key

Dependencies on models related by a foreign key with to_field compared the
foreign key with the primary key and stored its value as the key of the
marked object.
---
 denorm/dependencies.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 3c09990..4306a69 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -299,7 +299,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         qn(self.this_model._meta.pk.get_attname_column()[1])),
-                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.field.target_field.column)}
                 )
             )
             action_old = triggers.TriggerActionInsert(
@@ -309,7 +309,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         qn(self.this_model._meta.pk.get_attname_column()[1])),
-                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.field.target_field.column)}
                 )
             )
             return [
@@ -342,6 +342,22 @@ class CallbackDependOnRelated(DependOnRelated):
                     "OLD.%s" % qn(self.field.get_attname_column()[1]),
                 ),
             )
+            if not self.field.target_field.primary_key:
+                # The ForeignKey holds the value of an other column of
+                # ``this_model``, so look up the primary key.
+                action_new, action_old = [
+                    triggers.TriggerActionInsert(
+                        model=denorm.models.DirtyInstance,
+                        columns=("content_type_id", "object_id"),
+                        values=triggers.TriggerNestedSelect(
+                            self.this_model._meta.db_table,
+                            (content_type,
+                                qn(self.this_model._meta.pk.get_attname_column()[1])),
+                            **{self.field.target_field.column: "%s.%s" % (row, qn(self.field.get_attname_column()[1]))}
+                        )
+                    )
+                    for row in ("NEW", "OLD")
+                ]
             return [
                 triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using, self.skip),
                 triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
-- 
2.43.0


From e285ca97c723d4475f7725b2553f15ef8f3a049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:03 +0000
Subject: [PATCH 39/41] fix: replace cache keys of rows related by foreign keys
 that do not refer to the primary key

---
 denorm/dependencies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 4306a69..bcfba74 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -120,7 +120,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.field.target_field.column),
                 ),
             )
             action_old = triggers.TriggerActionUpdate(
@@ -129,7 +129,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.field.target_field.column),
                 ),
             )
             return [
@@ -149,7 +149,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.field.target_field.column),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -158,7 +158,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(self.get_column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.field.target_field.column),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
-- 
2.43.0


From a5976418c88ab681148f971224fb035ebd948e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:03 +0000
Subject: [PATCH 40/41] fix: count and sum rows related by foreign keys that do
 not refer to the primary key

---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 439bb2f..41ae52b 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -405,7 +405,7 @@ class AggregateDenorm(Denorm):
             }]
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
-            pk_name = qn(self.model._meta.pk.get_attname_column()[1])
+            pk_name = qn(related_field.target_field.column)
             fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
-- 
2.43.0


From d5cf7efb2488b90583f1cb241ebbb36ae6190447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:44:59 +0000
Subject: [PATCH 41/41] fix: let update triggers without watched columns do
 nothing

If every column of a table is skipped, SQLite and PostgreSQL rejected
the trigger and MySQL ran it on every update.
---
 denorm/db/mysql/triggers.py      | 3 +++
 denorm/db/postgresql/triggers.py | 2 +-
 denorm/db/sqlite3/triggers.py    | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 78cb7f6..70db483 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -89,6 +89,9 @@ class Trigger(base.Trigger):
                 field = qn(field)
                 # TODO: find out if we need to compare some fields as text like in postgres
                 conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s))" % {'f': field})
+            if not conditions:
+                # all columns are skipped
+                conditions.append("FALSE")
 
         if conditions:
             cond = " OR ".join(conditions)
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index f2647ba..0b91d54 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -102,7 +102,7 @@ class Trigger(base.Trigger):
                 else:
                     conditions.append("(OLD.%(f)s IS DISTINCT FROM NEW.%(f)s)" % {'f': field})
 
-            conditions = ["(%s)" % " OR ".join(conditions)]
+            conditions = ["(%s)" % " OR ".join(conditions or ["FALSE"])]
 
         if ct_field:
             ct_field = qn(ct_field)
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 534352c..8b95837 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -87,6 +87,9 @@ class Trigger(base.Trigger):
         when = []
         if event == "UPDATE":
             when.append("(" + "OR".join(["(OLD.%s IS NOT NEW.%s)" % (qn(f), qn(f)) for f, t in self.fields]) + ")")
+            if not self.fields:
+                # all columns are skipped
+                when = ["(0)"]
         if ct_field:
             ct_field = qn(ct_field)
             if event == "DELETE":
-- 
2.43.0

