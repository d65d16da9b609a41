__vp_open__ = 'django.utils.translation'


def gettext(s):
    return s


gettext_lazy = gettext
ugettext = gettext
ugettext_lazy = gettext
