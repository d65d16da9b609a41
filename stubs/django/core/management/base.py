import __vp__
__vp_open__ = 'django.core.management.base'


class CommandError(Exception):
    pass


class SystemCheckError(CommandError):
    pass


class OutputWrapper(object):
    __vp_open__ = 'django.core.management.base'

    def __init__(self, name):
        self.vp_name = name

    def write(self, msg='', style_func=None, ending=None):
        __vp__.note('cmd.write', self.vp_name, msg)

    def flush(self):
        return None


class Style(object):
    def __getattr__(self, name):
        if name.isupper():
            return lambda text: text
        raise AttributeError(name)


class CommandParser(object):
    __vp_open__ = 'argparse'

    def __init__(self):
        self.vp_args = []

    def add_argument(self, *flags, **kw):
        self.vp_args.append((flags, kw))
        return None

    def add_argument_group(self, *a, **k):
        return self

    def add_mutually_exclusive_group(self, *a, **k):
        return self

    def set_defaults(self, **kw):
        for k, v in kw.items():
            self.vp_args.append(((), {'dest': k, 'default': v}))


class BaseCommand(object):
    __vp_open__ = 'django.core.management.base'
    help = ''
    output_transaction = False
    requires_migrations_checks = False
    requires_system_checks = True

    def __init__(self, stdout=None, stderr=None, no_color=False):
        self.stdout = OutputWrapper('stdout')
        self.stderr = OutputWrapper('stderr')
        self.style = Style()

    def add_arguments(self, parser):
        pass

    def vp_call(self, given):
        """Runs the command with some options given by the user and the others at their defaults."""
        parser = CommandParser()
        self.add_arguments(parser)
        options = {'verbosity': 1, 'settings': None, 'pythonpath': None, 'traceback': False, 'no_color': False, 'skip_checks': True}
        for flags, kw in parser.vp_args:
            dest = kw.get('dest')
            if dest is None:
                for f in flags:
                    if f.startswith('--'):
                        dest = f[2:]
                        break
                if dest is None:
                    dest = flags[0].lstrip('-')
                dest = dest.replace('-', '_')
            action = kw.get('action', 'store')
            if action == 'store_true':
                default = kw.get('default', False)
            elif action == 'store_false':
                default = kw.get('default', True)
            elif kw.get('nargs') == '*':
                default = kw.get('default') or []
            else:
                default = kw.get('default')
            if dest in given:
                default = given[dest]
            options[dest] = default
        for k in given:
            if k in ('verbosity',):
                options[k] = given[k]
            elif k not in options:
                __vp__.note('cmd.unknown_option', k)
        args = options.pop('args', ())
        return self.execute(*args, **options)

    def execute(self, *args, **options):
        output = self.handle(*args, **options)
        if output:
            self.stdout.write(output)
        return output

    def handle(self, *args, **options):
        raise NotImplementedError('subclasses of BaseCommand must provide a handle() method')


class NoArgsCommand(object):
    pass


class LabelCommand(BaseCommand):
    pass


del NoArgsCommand
