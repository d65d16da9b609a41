__vp_open__ = 'django.db.models'
from django.core.exceptions import ObjectDoesNotExist
from django.db.models import signals
from django.db.models.deletion import CASCADE, DO_NOTHING, PROTECT, SET, SET_DEFAULT, SET_NULL, ProtectedError
from django.db.models.query_utils import Q
from django.db.models.expressions import Case, Expression, F, Func, Subquery, Value, When, ExpressionWrapper, Exists, OuterRef
from django.db.models.aggregates import Aggregate, Avg, Count, Max, Min, StdDev, Sum, Variance
from django.db.models.query import QuerySet, Prefetch
from django.db.models.manager import Manager
from django.db.models.fields import (
    AutoField, BigAutoField, BigIntegerField, BinaryField, BooleanField, CharField, DateField, DateTimeField,
    DecimalField, DurationField, EmailField, Field, FilePathField, FloatField, GenericIPAddressField, IntegerField,
    NullBooleanField, PositiveIntegerField, PositiveSmallIntegerField, SlugField, SmallIntegerField, TextField,
    TimeField, URLField, UUIDField, FileField, ImageField, FieldDoesNotExist, NOT_PROVIDED,
)
from django.db.models.fields.related import (
    ForeignKey, ForeignObject, OneToOneField, ManyToManyField, ManyToOneRel, ManyToManyRel, OneToOneRel,
)
from django.db.models.base import Model
