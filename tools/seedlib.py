"""Helper that demonstrations of planted bugs carry along (copied into each of them)."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import time

PG = '/usr/lib/postgresql/16/bin'
os.environ['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
SCRATCH = tempfile.mkdtemp(prefix='denorm-demo-')
os.chmod(SCRATCH, 0o755)
_stop = []


def cleanup():
    for f in _stop:
        f()
    shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(cleanup)


def start_postgres():
    d = os.path.join(SCRATCH, 'pg')
    os.mkdir(d)
    shutil.chown(d, 'postgres', 'postgres')
    env = dict(os.environ, HOME=d, LC_ALL='C.UTF-8')
    su = ['setpriv', '--reuid=postgres', '--regid=postgres', '--clear-groups']
    data = os.path.join(d, 'data')
    quiet = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d)
    subprocess.check_call(su + [PG + '/initdb', '-D', data, '-A', 'trust', '-U', 'postgres', '-E', 'UTF8', '--locale=C.UTF-8', '-N'], **quiet)
    subprocess.check_call(su + [PG + '/pg_ctl', '-D', data, '-l', d + '/log', '-w', '-t', '120', '-o',
                                '-c listen_addresses= -c unix_socket_directories=%s -c fsync=off' % d, 'start'], **quiet)
    _stop.append(lambda: subprocess.call(su + [PG + '/pg_ctl', '-D', data, '-m', 'immediate', '-w', 'stop'], **quiet))
    subprocess.check_call(su + [PG + '/createdb', '-h', d, '-U', 'postgres', 'demo'], **quiet)
    return {'ENGINE': 'django.db.backends.postgresql', 'NAME': 'demo', 'USER': 'postgres', 'HOST': d}


def start_mysql():
    d = os.path.join(SCRATCH, 'my')
    os.mkdir(d)
    shutil.chown(d, 'mysql', 'mysql')
    quiet = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.check_call(['mariadb-install-db', '--no-defaults', '--user=mysql', '--datadir=%s/data' % d,
                           '--auth-root-authentication-method=normal', '--skip-test-db'], **quiet)
    p = subprocess.Popen(['mariadbd', '--no-defaults', '--user=mysql', '--datadir=%s/data' % d, '--socket=%s/sock' % d,
                          '--pid-file=%s/pid' % d, '--skip-networking', '--character-set-server=utf8mb4'], **quiet)

    def stop():
        p.kill()
        p.wait()
    _stop.append(stop)
    for _ in range(240):
        if subprocess.call(['mariadb-admin', '--no-defaults', '-uroot', '-S', d + '/sock', 'ping'], **quiet) == 0:
            break
        time.sleep(0.5)
    subprocess.check_call(['mariadb', '--no-defaults', '-uroot', '-S', d + '/sock', '-e', 'CREATE DATABASE demo'], **quiet)
    return {'ENGINE': 'django.db.backends.mysql', 'NAME': 'demo', 'USER': 'root', 'HOST': d + '/sock'}


def setup(models, db='sqlite', install=True, extra=None, aliases=()):
    """Makes a project with one application containing the given models; returns its models module."""
    import warnings
    warnings.simplefilter('ignore')
    app = os.path.join(SCRATCH, 'demoapp')
    os.mkdir(app)
    open(os.path.join(app, '__init__.py'), 'w').close()
    with open(os.path.join(app, 'models.py'), 'w') as f:
        f.write('from django.db import models\nfrom denorm import *\nfrom denorm.fields import SumField\n' + models)
    sys.path.insert(0, SCRATCH)
    sys.path.insert(0, os.getcwd())
    sys.dont_write_bytecode = True
    if db == 'sqlite':
        conf = {'ENGINE': 'django.db.backends.sqlite3', 'NAME': os.path.join(SCRATCH, 'db.sqlite3')}
    elif db == 'mysql':
        conf = start_mysql()
    else:
        conf = start_postgres()
    dbs = {'default': conf}
    for a in aliases:
        dbs[a] = dict(conf, NAME=os.path.join(SCRATCH, a + '.sqlite3'))
    from django.conf import settings
    opts = dict(SECRET_KEY='x', INSTALLED_APPS=['django.contrib.contenttypes', 'denorm', 'demoapp'], DATABASES=dbs)
    opts.update(extra or {})
    settings.configure(**opts)
    import django
    django.setup()
    from django.core.management import call_command
    for a in dbs:
        call_command('migrate', 'contenttypes', verbosity=0, database=a)
        call_command('migrate', run_syncdb=True, verbosity=0, database=a)
    import denorm
    assert os.path.realpath(denorm.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), denorm.__file__
    if install:
        from denorm import denorms
        denorms.install_triggers()
    import demoapp.models
    return demoapp.models


def marked(model):
    """Keys of the model's rows that are marked dirty."""
    from denorm.models import DirtyInstance
    from django.contrib.contenttypes.models import ContentType
    ct = ContentType.objects.get_for_model(model)
    return set(DirtyInstance.objects.filter(content_type=ct).values_list('object_id', flat=True))


def clean():
    from denorm.models import DirtyInstance
    DirtyInstance.objects.all().delete()


def expect(what, got, want):
    if got != want:
        print('FAIL: %s: got %r, want %r' % (what, got, want))
        sys.exit(1)
    print('ok: %s' % what)
