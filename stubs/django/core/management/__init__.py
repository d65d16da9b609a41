import __vp__
__vp_open__ = 'django.core.management'
from .base import BaseCommand, CommandError


def call_command(name, *args, **kw):
    __vp__.note('call_command', name, args, kw)
