"""The checks, by property."""
from .rules import marks, keys, aggregates, sets, flushing, heirs, resolving, serving, commands, declared, backends, marker, cached, saving

SQL = ('The functions that build trigger SQL are abstractly interpreted over the syntax tree for model sets that stand for each kind of '
       'declaration, with unknown table names, column names and content types; the resulting statement templates are parsed and their effect '
       'on one row operation is compared with the specification for every combination of equality cases (NULL, equal, different).')

SAVE = ('Saving a model instance is abstractly interpreted from the framework entry point through the field hooks, with unknown attribute and '
        'row values and every outcome of the queries; the rule looks at where each value written to a column comes from on every alternative.')

CATALOG = ('Dropping, installing and the commands are abstractly interpreted with unknown catalogue contents; the resulting trace of statement '
           'templates (loops over catalogue rows, conditions on names) is followed over representative catalogues of own and foreign trigger names.')

PLACED = ('Installing, dropping and the commands are abstractly interpreted for several aliases, with every statement possibly failing; the rule follows '
          'which connection each statement goes to and which transaction blocks are open on every alternative of the trace.')

FLUSH = ('The flush is abstractly interpreted with unknown marker table contents, unknown objects (present, vanished, falsy) and every save or '
         'query possibly failing; the rule follows the states of a marker (read, looked up, saved, deleted) through the loops of the resulting trace.')

REBUILD = ('The rebuild is abstractly interpreted for a model set of two applications (custom managers, inheritance, every field kind) and each selector '
           'value with unknown rows; the rule compares the marker insertions of the trace, with the query and loop each stems from, with the declarations.')

SERVE = ('One request through the middleware, and the request signals, are abstractly interpreted with unknown markers, objects and response and every '
         'database access possibly failing with each database error class; the rule looks at the value and the order of effects of every outcome.')

DAEMON = ('The daemon command and the function that detaches the process are abstractly interpreted for each pid file state, with unknown fork results, every '
          'system call possibly failing and an interrupt possible at each database access or sleep; the rule follows processes and uncommitted work.')

COMMAND = ('Each command is abstractly interpreted with the options a user can give, and its effect trace is compared with that of the function it stands for, '
           'interpreted with the same values; the printed text is compared with the statements of an installation, unknown names included.')

DECL = ('Field declarations with each wrapped field class and option set are abstractly interpreted (user values unknown), and the resulting field objects '
        'are compared with the plain fields declared next to them.')

BACKEND = ('Importing the trigger backend is abstractly interpreted for each engine name and setting, and each trigger part of each backend is rendered '
           'abstractly; the rule looks at the imported module, the raised error and the rendered text.')

CACHED = ('Assigning, loading, creating and saving with a cached function field is abstractly interpreted with unknown keys and a cache that may hold anything; '
          'the rule looks at the names under which the cache is accessed and where the shown value comes from.')

SAVING = ('Saving instances with computed fields is abstractly interpreted together with a model of the framework; function results, keys and row existence are unknown. '
          'The rule follows the function results into the written columns, the attributes, the remembered related object and the links.')

HEIRS = ('Installing, saving and rebuilding is abstractly interpreted twice, for models inheriting their declarations from abstract models and for the same models '
         'declaring them themselves; the generated statements and the effect traces are compared.')

RESOLVE = ('Model set-up and trigger generation are abstractly interpreted for pairs of models related in up to four ways and every name and direction a declaration '
           'may give; which relation was taken is read off the generated statements by their effect on rows that are linked through one relation each.')

MARKERS = ('The marker model and all migrations are abstractly interpreted to table descriptions, which are compared with each other, with the requirement that '
           'any key fits, and with the columns named by the insertions of the generated triggers.')

CLAIMS = {
    'C01': dict(fn=marks.forward, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C02': dict(fn=marks.backward, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C03': dict(fn=marks.many, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C05': dict(fn=marks.watched, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C06': dict(fn=keys.cache_keys, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C07': dict(fn=aggregates.aggregates, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C08': dict(fn=aggregates.saving, technique='abstract interpretation + dataflow of written values', note=SAVE),
    'C09': dict(fn=sets.complete, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
    'C10': dict(fn=sets.lifecycle, technique='abstract interpretation + typestate of the trigger catalogue', note=CATALOG),
    'C11': dict(fn=flushing.flush, technique='abstract interpretation + typestate of a marker', note=FLUSH),
    'C12': dict(fn=flushing.rebuild, technique='abstract interpretation + effect analysis of marker insertions', note=REBUILD),
    'C13': dict(fn=saving.saving, technique='abstract interpretation + dataflow from function result to column, attribute and links', note=SAVING),
    'C14': dict(fn=resolving.resolved, technique='abstract interpretation of model set-up + effect analysis of the generated SQL templates', note=RESOLVE),
    'C15': dict(fn=serving.middleware, technique='abstract interpretation + effect ordering on all outcomes', note=SERVE),
    'C16': dict(fn=serving.daemon, technique='abstract interpretation + typestate of transactions and processes', note=DAEMON),
    'C20': dict(fn=cached.cached, technique='abstract interpretation + dataflow from key to cache name and shown value', note=CACHED),
    'C21': dict(fn=backends.backends, technique='abstract interpretation of backend import and rendering', note=BACKEND),
    'C22': dict(fn=commands.commands, technique='abstract interpretation + comparison of effect traces', note=COMMAND),
    'C23': dict(fn=declared.options, technique='abstract interpretation + comparison of abstract field values', note=DECL),
    'C24': dict(fn=marker.marker, technique='abstract interpretation of model, migrations and generated SQL + schema comparison', note=MARKERS),
    'C25': dict(fn=heirs.inherited, technique='abstract interpretation + comparison of generated SQL templates and effect traces', note=HEIRS),
    'C26': dict(fn=serving.daemonize, technique='abstract interpretation + typestate of processes', note=DAEMON),
    'C17': dict(fn=declared.deconstruction, technique='abstract interpretation + comparison of abstract field values', note=DECL),
    'C18': dict(fn=sets.named, technique='abstract interpretation of the trigger generator + name resolution in the generated SQL templates', note=SQL),
    'C19': dict(fn=sets.placed, technique='abstract interpretation + typestate of transactions', note=PLACED),
    'C04': dict(fn=marks.own, technique='abstract interpretation of the trigger generator + effect analysis of the generated SQL templates', note=SQL),
}
