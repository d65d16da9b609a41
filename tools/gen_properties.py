"""Writes /verif/properties.jsonl (kept as code so the wording can be reviewed in one place)."""
import json, os
P = []
ALLDB = "SQLite, MySQL/MariaDB and PostgreSQL/PostGIS"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


DEP, DEN, BASE, FLD = "denorm/dependencies.py", "denorm/denorms.py", "denorm/db/base.py", "denorm/fields.py"
BK = ["denorm/db/sqlite3/triggers.py", "denorm/db/mysql/triggers.py", "denorm/db/postgresql/triggers.py"]
MARK = ("dirty marker table", "one row (content type, object id) per object whose computed fields may be stale", "denorm/models.py DirtyInstance")

p("C01", "A change to a foreign-key target marks every referencing row dirty",
  "When a computed field declares a dependency on a model that its own model references by foreign key, then on SQLite, MySQL and PostgreSQL every insert, delete or column change of a row of that related model leaves a dirty marker for each row of the declaring model that references it. No marker is left for a row that references something else or nothing. Models depending on themselves through such a key behave the same.",
  ["inputs", "histories", "configurations"], "all schemas with a forward FK dependency, all row contents (including NULL keys), all DML on the related table, three database backends",
  "The tests change one title of one row per backend; no test inserts or deletes a dependency target, has unrelated or NULL-referencing rows in the table, or uses a non-default primary key or column name.",
  [DEP, BASE] + BK, [("forward branch of the callback dependency's trigger construction", DEP + " CallbackDependOnRelated.get_triggers"), ("nested select / insert action rendering", BK[0] + " TriggerNestedSelect, TriggerActionInsert (and siblings)")], [MARK], ["SQL text handed to the database by install_triggers / denorm_init"])

p("C02", "A change to a row marks both its old and its new foreign-key owner dirty",
  "When a computed field declares a dependency on a model that has a foreign key to the field's own model, every insert, delete or column change of a row of that related model leaves a dirty marker for the row it points to, on every supported database. When the foreign key itself is re-pointed, both the previous and the new target are marked; no other row of the declaring model is.",
  ["inputs", "histories", "configurations"], "all schemas with a backward FK dependency (including self references), all old/new key values including NULL, all DML, three backends",
  "Tests move one child per backend through values that happen to be marked by other denormalizations of the same test model too, and never look at which markers are written.",
  [DEP, BASE] + BK, [("backward branch of the callback dependency's trigger construction", DEP + " CallbackDependOnRelated.get_triggers")], [MARK], ["SQL text handed to the database by install_triggers / denorm_init"])

p("C03", "Many-to-many and generic-relation changes mark every affected row dirty",
  "When a computed field depends on a model through a many-to-many field (declared on either side), adding, removing or re-pointing a link marks the declaring-model row at that link's end (both ends' old and new values when re-pointed), and a column change of a related-model row marks every declaring-model row linked to it and no unlinked one. When it depends on a model through a generic relation, inserting, changing, re-pointing or deleting a generically attached row marks the object of the declaring model it is or was attached to.",
  ["inputs", "histories", "configurations"], "forward and backward M2M and generic relations, all link contents and changes, three backends",
  "Tests add/remove a single bookmark and create two tags; link-table updates, deletes of generic rows, the backward direction and rows not linked are never exercised.",
  [DEP, BASE] + BK, [("m2m branch of the callback dependency's trigger construction", DEP + " CallbackDependOnRelated.get_triggers"), ("content-type guard of generic-relation triggers", BK[0] + " Trigger.sql; " + BK[2] + " Trigger.sql")], [MARK], ["SQL text handed to the database by install_triggers / denorm_init"])

p("C04", "Every insert or column change of a row with a computed field marks that row",
  "For every model with a callback-computed field, any insert or column-changing update of one of its rows, including raw SQL and bulk updates that bypass save(), leaves a dirty marker for exactly that row on every supported database. Only when the project sets the bulk-unsafe option are these own-row markers (and nothing else) left out.",
  ["inputs", "histories", "configurations"], "all models, rows and DML; option set/unset/false; three backends",
  "Tests do one bulk update of one member; they cannot tell own-row markers from dependency markers and never set the option.",
  [DEN, FLD, BASE] + BK, [("own-row triggers", DEN + " CallbackDenorm.get_triggers"), ("option switch", FLD + " denormalized / contribute_to_class")], [MARK], ["SQL text handed to the database by install_triggers"])

p("C05", "Update triggers react exactly to changes of non-skipped columns, NULL-safely",
  "On every supported database an UPDATE of a watched row has its denormalization effect if and only if at least one of the row's own stored columns that is not skipped differs between the old and new row, where NULL versus non-NULL counts as different and NULL versus NULL as equal. A column is skipped when it is listed in the declaration's skip option or in the model's always-skip list; when several declarations watch the same table, a column is ignored only if none of them watches it.",
  ["inputs", "configurations"], "all columns, all old/new value pairs including NULL, all combinations of skip declarations, three backends, columns whose database type is unknown to the ORM",
  "Tests only check that flushing terminates with a skip; no test changes a column to or from NULL, combines skip sources or merges declarations with different skips.",
  [BASE] + BK + [DEN], [("tracked column computation", BASE + " Trigger.__init__"), ("change condition rendering", "Trigger.sql in each backend"), ("merging of same-table triggers", BASE + " TriggerSet.append")], (), ["WHEN / IF condition in the SQL handed to the database"])

p("C06", "A cache key is replaced whenever a row it depends on changes",
  "For a cache-key field with a declared dependency (foreign key in either direction, many-to-many, or generic relation), every insert, delete or change of a related row immediately assigns a fresh random key to each row of the declaring model that is related to it before or after the change, without any flush. For foreign-key and many-to-many dependencies no other row's key is touched. Saving an instance also gives it a fresh random key.",
  ["inputs", "histories", "configurations"], "all relation kinds, all row contents, all DML on the dependency, three backends",
  "Tests cover one insert, one move and one update per relation kind; deletes, link removals, generic relations, NULLs and unrelated rows are not exercised.",
  [DEP, DEN, FLD] + BK, [("cache-key dependency triggers", DEP + " CacheKeyDependOnRelated.get_triggers"), ("random value SQL", "RandomBigInt in each backend"), ("save hook", FLD + " CacheKeyField.pre_save")], [("cache key column", "opaque random version of everything the row depends on", FLD + " CacheKeyField")], ["SQL handed to the database", "value written by save()"])

p("C07", "Count and sum fields always equal the live aggregate over matching child rows",
  "For a count or sum field over a reverse foreign key, each insert, delete or update of a child row changes each parent's stored value by exactly the change in the number (or sum, NULL counting as zero) of its matching child rows. This includes moving a child between parents or to/from no parent, and changes that make the child start or stop matching the declared filter and exclude conditions, on every supported database and for every value.",
  ["inputs", "histories", "configurations"], "all child old/new states (parent, NULL parent, filter and exclude truth values, summed value incl. NULL), all DML, with/without filter/exclude, three backends",
  "Tests walk one hand-written history; they never move a child while its filter status or summed value changes, never use NULL values and never use filter together with exclude on a sum.",
  [DEN, FLD] + BK, [("increment/decrement triggers and their WHERE conditions", DEN + " AggregateDenorm.get_triggers, CountDenorm, SumDenorm"), ("filter compilation against NEW/OLD", DEN + " TriggerFilterQuery, TriggerWhereNode"), ("parameter order", "Trigger.sql in each backend")], [("aggregate column", "current count/sum for the parent row", FLD + " AggregateField")], ["UPDATE statements in the SQL handed to the database and their parameters"])

p("C08", "Saving never overwrites a count or sum with a stale or made-up value",
  "Saving an existing object writes back the count/sum that is currently in the database for that row, whatever value the in-memory instance holds, and refreshes the in-memory value to match. Saving a new object, with or without an explicitly chosen primary key, stores zero.",
  ["inputs", "histories"], "all in-memory values, all database values, insert vs update, explicit or automatic keys, any default manager on the model",
  "One test saves one stale instance; explicit primary keys and models with filtering or renamed managers are not covered.",
  [FLD], [("value chosen at save time", FLD + " AggregateField.pre_save")], (), ["value returned for the column at save time and the instance attribute"])

p("C09", "Installed triggers cover every declaration without losing or repeating actions",
  "Installing creates exactly one trigger per watched table, event and (where the backend separates them) content type, and its body performs every action required by every declaration that watches that table and event: nothing is lost when several models, fields or dependencies share a table, and no aggregate adjustment is executed twice. Every denormalization declared on an installed, concrete, non-swapped model takes part, including computed many-to-many fields; proxies add nothing. Statement parameters are passed in the order in which the statement uses them.",
  ["configurations", "programs"], "all sets of models and declarations, all merge orders, three backends",
  "The single test project fixes one set of declarations; several required actions are duplicated by sibling declarations so losing one goes unnoticed.",
  [DEN, BASE] + BK, [("collection of declarations", DEN + " get_alldenorms, build_triggerset"), ("merge by trigger name", BASE + " TriggerSet.append, Trigger.name"), ("de-duplication and parameter collection", "Trigger.sql in each backend")], (), ["list of executed CREATE TRIGGER statements"])

p("C10", "Dropping removes all and only denorm triggers; re-initialising always works",
  "Dropping triggers removes every trigger that an earlier install could have created, however long the table name, and leaves every trigger whose name lacks the library's reserved name prefix alone. Running the init command leaves the database with exactly the triggers the current declarations need, regardless of which denorm triggers were there before.",
  ["histories", "configurations"], "all sequences of init/drop/model change, all table names, all foreign trigger names, three backends",
  "Tests drop and install once on a clean schema with short table names and no foreign triggers.",
  BK + ["denorm/management/commands/denorm_init.py", "denorm/management/commands/denorm_drop.py", DEN], [("catalog query and DROP loop", "TriggerSet.drop in each backend"), ("trigger naming", BASE + " Trigger.name and truncation in backends")], (), ["SQL handed to the database"])

p("C11", "Flush recomputes every marked object and only then forgets its marker",
  "Flushing returns only after observing that no dirty marker is left. For each marker it reads, it re-saves the marked object in full if that object still exists, before removing the marker, and it removes markers for precisely the object it has just handled; markers of objects that no longer exist are simply removed. If re-saving an object fails, its marker is not removed by the flush.",
  ["histories", "fault_sequences", "inputs"], "all marker table contents (duplicates, vanished objects, NULL ids, objects that are falsy in Python), markers appearing while flushing, failures of any single save",
  "Tests flush a handful of markers that all succeed; they never fail a save, never leave a vanished object and cannot distinguish removal order.",
  [DEN], [("flush loop", DEN + " flush")], [MARK], ["ORM operations performed by flush in order"])

p("C12", "Rebuild marks every row of every selected model, then flushes",
  "A rebuild without arguments marks every existing row of every model that has a denormalized field and then flushes. With a model selector (application label, model name, or app.Model) and/or a field name it does so for exactly the models that match, and rows hidden by a model's default or custom manager are rebuilt too.",
  ["inputs", "configurations"], "all model sets, all selector values, any number of rows, any custom managers",
  "Tests rebuild one small data set; selectors are exercised once without checking which models were touched.",
  [DEN, "denorm/management/commands/denorm_rebuild.py"], [("selection and marking", DEN + " rebuildall")], [MARK], ["markers created and flush call"])

p("C13", "Every save stores the freshly computed value of each computed field",
  "Each time an instance is saved, a computed field's column and the in-memory attribute receive the value its function returns at that moment; for a computed foreign key the function may return an instance or a raw key and both the cached related object and the key stay consistent. A computed many-to-many field's links are replaced by what the function returns on each save of an instance that has a primary key, and a newly created instance is re-saved so its links are filled too.",
  ["inputs", "configurations"], "all return values, all field types, insert and update",
  "Tests check a few constant results; the related-object cache, None results and creation-time M2M contents are barely sampled.",
  [FLD, DEN], [("save hook of computed fields", FLD + " DenormDBField.pre_save"), ("M2M signal handlers", DEN + " many_to_many_pre_save, many_to_many_post_save")], (), ["value returned for the column, instance attributes, M2M set operation"])

p("C14", "A dependency resolves to exactly one matching relation or is rejected",
  "A declared dependency is attached to the unique foreign key or many-to-many/generic relation between the two models, in either direction, that matches the given relation name and direction, whether the other model is given as a class or a (possibly not yet loaded) name. If no or more than one relation matches, setting up the model raises an error instead of guessing; a self dependency without a direction means the forward direction.",
  ["configurations", "programs"], "all model pairs, relation sets, names and direction arguments, definition orders",
  "The test models contain only resolvable declarations; ambiguity and absence are never exercised.",
  [DEP, "denorm/helpers.py"], [("candidate search", DEP + " DependOnRelated.resolved_model"), ("relation filters", "denorm/helpers.py find_fks, find_m2ms")], (), ["raised error or the relation whose triggers are installed"])

p("C15", "The middleware flushes on every response and never breaks the response",
  "For every request handled with the middleware installed, a flush runs before the response leaves, and the view's own response object is what is returned, also when the flush fails with a database error (which is logged). With the legacy after-request setting enabled a flush runs whenever a request finishes, and with it disabled or absent none is added.",
  ["fault_sequences", "inputs"], "all requests, responses and database failures; setting on/off/absent",
  "The only middleware test returns immediately.",
  ["denorm/middleware.py", "denorm/__init__.py"], [("response hook", "denorm/middleware.py DenormMiddleware.process_response"), ("legacy signal", "denorm/__init__.py")], (), ["flush call and returned object"])

p("C16", "The daemon flushes and commits each cycle, once per pid file",
  "The daemon command does nothing when its pid file names a process that exists, including one owned by another user, and otherwise runs. Every cycle it runs performs a flush and commits it before the next one starts or before it exits on Ctrl-C; a missing or dead pid does not prevent starting. In run-once mode it performs exactly one cycle; afterwards autocommit is switched back on.",
  ["schedules", "fault_sequences", "configurations"], "all pid-file states and OS answers, any number of cycles, interrupt at any point of a cycle",
  "The one daemon test runs with run-once, which never entered the loop at all.",
  ["denorm/management/commands/denorm_daemon.py"], [("pid check", "denorm_daemon.py Command.pid_exists"), ("cycle and transaction handling", "denorm_daemon.py Command.handle, commit_manually")], (), ["order of flush/commit/sleep calls, return without looping"])

p("C17", "Migrations see a computed field as the plain field it wraps",
  "Deconstructing a computed field for migrations yields the wrapped field class's own import path and exactly the wrapped field's arguments, never the computing function or dependency data. A count or sum field keeps its own path and relation name and can be rebuilt from what it deconstructs to.",
  ["configurations", "programs"], "all wrapped field types and options",
  "test_makemigrations only checks that the command does not crash.",
  [FLD], [("deconstruct", FLD + " DenormDBField.deconstruct, AggregateField.deconstruct")], (), ["tuple returned to the migration framework"])

p("C18", "Trigger SQL addresses tables and columns by their real, quoted database names",
  "In all generated trigger SQL, every table and column of the user's models is referred to by its database name (honouring custom column and table names) and quoted for the target database, so models with reserved words, mixed case or custom column names work. Attribute or field names never appear in place of column names.",
  ["configurations"], "all legal table and column names, all declaration kinds, three backends",
  "One test model uses one reserved word and one mixed-case column, in positions that happen to be quoted; custom column names never occur.",
  [DEP, DEN, BASE] + BK, [("quoting function", "get_quote_name / connection.ops.quote_name"), ("column lookup", "get_attname_column()[1], m2m_column_name(), column")], (), ["identifiers in the SQL handed to the database"])

p("C19", "Installing or dropping for a database alias touches only that database",
  "Installing or dropping triggers for a named database executes every statement on that database's connection and, on backends that run the change in a transaction, inside a transaction of that same database, so that a failure leaves its trigger set unchanged. Identifiers are quoted by that connection's rules; without an alias the default database is used.",
  ["configurations", "fault_sequences"], "all aliases, all failure points of a multi-statement install",
  "All tests use the single default database and no failing statement.",
  [DEN, BASE] + BK + ["denorm/management/commands/denorm_init.py", "denorm/management/commands/denorm_drop.py"], [("alias plumbing", DEN + " install_triggers, drop_triggers, build_triggerset; " + BASE + " TriggerSet"), ("transaction", "TriggerSet.install / drop in sqlite3 and postgresql backends")], (), ["connection and transaction each statement runs in"])

p("C20", "A cached function field never shows data stored under another cache key",
  "Loading or assigning a cached-function field yields either what was stored in the cache under that row's current key, or, when there is nothing usable under the key, a freshly computed value that is then stored under that key. Values are never shared between different keys, and a row that has no key of its own yet (key still at its initial default) never reads from or writes to the shared cache.",
  ["inputs", "histories"], "all key values, all cache contents, unsaved and freshly migrated rows",
  "The single test uses two saved rows with distinct keys.",
  [FLD], [("descriptor", FLD + " CacheWrapper.__set__"), ("key refresh on save", FLD + " CacheKeyField.pre_save")], (), ["cache get/set calls and the attribute value"])

p("C21", "Every supported database engine gets a complete matching trigger backend",
  "For each supported engine (SQLite, MySQL, PostgreSQL under any of its Django engine names including PostGIS) the matching trigger implementation is selected, an explicit backend setting overrides the guess, and an unsupported engine is rejected at import. Every selected implementation renders all trigger parts (insert, update, nested selection, random key, trigger, set installation and removal) rather than leaving a part unimplemented.",
  ["configurations"], "all engine names and settings, all trigger parts",
  "Each test run exercises only the engines it is started with and the parts its models use.",
  ["denorm/db/__init__.py", BASE] + BK, [("engine mapping", "denorm/db/__init__.py"), ("backend classes", "denorm/db/*/triggers.py")], (), ["imported backend module, class completeness"])

p("C22", "Management commands act on exactly what they announce",
  "The init, drop, flush and rebuild commands perform respectively installation, removal, a flush and a rebuild, with the database alias, model selector and verbosity given by the user. The SQL command prints, in full and without executing anything, exactly the statements the init command would create triggers with, parameters filled in.",
  ["inputs", "configurations"], "all option values, all trigger sets",
  "Tests call each command once and only check that it does not raise.",
  ["denorm/management/commands/denorm_init.py", "denorm/management/commands/denorm_drop.py", "denorm/management/commands/denorm_flush.py", "denorm/management/commands/denorm_rebuild.py", "denorm/management/commands/denorm_sql.py", DEN], [("handle methods", "denorm/management/commands/*.py")], (), ["calls made and text printed"])

p("C23", "Denormalized columns are never offered for manual editing",
  "Every computed, count, sum, cache-key and cached-function field is created non-editable, whatever options the user passes, and count, sum, cache-key and cached fields always default to zero for new rows. All remaining user options reach the underlying column field unchanged.",
  ["inputs", "configurations"], "all option dictionaries",
  "No test passes conflicting options.",
  [FLD], [("constructors", FLD + " DenormDBField.__init__, AggregateField.__init__, CacheKeyField.__init__")], (), ["options passed to the wrapped database field"])

p("C24", "The marker table can record any object the triggers may mark",
  "The dirty-marker table, in the model as well as in the migration that creates it, stores an object key of any type and length (including NULL for a cleared reference) together with its content type, without a constraint that would reject or merge markers. The columns that triggers write are exactly columns of that table, and model and migration describe the same table.",
  ["configurations", "inputs"], "all primary key types (integers, UUIDs, strings), NULL references, repeated markers",
  "All test models use integer keys and tests never compare migration and model.",
  ["denorm/models.py", "denorm/migrations/0001_initial.py", DEN, DEP], [("marker model", "denorm/models.py DirtyInstance"), ("migration", "denorm/migrations/0001_initial.py")], [MARK], ["field definitions, INSERT statements of triggers"])

p("C25", "Each concrete model gets its own bookkeeping for inherited declarations",
  "When computed, count, sum or cache-key fields are declared on an abstract base, every concrete subclass behaves as if it had declared them itself: its own triggers, dependencies, relation manager and values, independent of how many other subclasses exist or in which order they are defined.",
  ["configurations", "programs"], "all inheritance trees and definition orders, all field kinds",
  "The only abstract test models with two subclasses use computed fields; counts and cache keys on abstract bases are never used.",
  [FLD, DEN, DEP], [("per-class setup", FLD + " contribute_to_class of each field class")], (), ["triggers installed per concrete model"])

p("C26", "Daemonizing leaves exactly one detached process, recorded in the pid file",
  "Daemonizing makes the calling process and the intermediate child exit at once and continues only in a grandchild that belongs to a new session and works from the root directory; the grandchild's pid is printed and stored in the pid file when one is given. Any operating-system failure on the way is reported as a daemon error, and standard streams are only redirected when the caller did not ask to keep them.",
  ["fault_sequences", "configurations"], "all fork outcomes and OS errors, with/without pid file, keep-open option",
  "No test daemonizes.",
  ["denorm/daemon.py"], [("double fork", "denorm/daemon.py daemonize, _fork, _redirectFileDescriptors")], (), ["order of fork/setsid/exit/write calls on each process branch"])

p("C90", "Flushing terminates for every well-founded dependency graph",
  "If the computed functions are deterministic and the dependency graph between rows is acyclic, repeated flushing reaches a state without dirty markers after finitely many passes and all computed fields then equal their functions' values.",
  ["histories", "programs"], "all user functions, dependency graphs and data",
  "Termination and fixpoint values depend on user callbacks and data the tests sample once.",
  [DEN], [("flush loop", DEN + " flush")], [MARK], ["termination of flush"])

p("C91", "Changes committed while a flush is running are not forgotten",
  "If another transaction changes data an object depends on while a flush is recomputing that same object, the object is recomputed again by that flush or a later one.",
  ["schedules"], "all interleavings of a flush with concurrent writers at every isolation level",
  "Tests are single-threaded.",
  [DEN], [("marker deletion", DEN + " flush")], [MARK], ["marker table after concurrent commits"])

p("C92", "Two different states of a row never share a cache key",
  "Keys produced by saves and by triggers do not repeat for a row or across rows, so a cached rendering is never reused for different data.",
  ["histories"], "all sequences of key generations in Python and in the three databases",
  "Statistical; tests compare two values.",
  [FLD] + BK, [("random key", "RandomBigInt in each backend, random.randint")], (), ["key values"])

p("C93", "A failed trigger installation on MySQL leaves the previous triggers in place",
  "If any statement of an install fails, the database keeps the trigger set it had before.",
  ["fault_sequences"], "all failure points on an engine whose DDL commits implicitly",
  "No failing install is tested.",
  [BK[1]], [("install loop", BK[1] + " TriggerSet.install")], (), ["trigger catalog after a failure"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
