# -*- coding: utf-8 -*-
"""Columns of every type Django has, as what a field depends on and as what a field stores."""
import datetime
import decimal

from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, depends, oracle

T, TD, D = datetime.time, datetime.timedelta, decimal.Decimal


class Source(models.Model):
    big = models.BigIntegerField(null=True)
    small = models.SmallIntegerField(null=True)
    psmall = models.PositiveSmallIntegerField(default=3)
    flt = models.FloatField(null=True)
    dec = models.DecimalField(max_digits=8, decimal_places=2, null=True)
    raw = models.BinaryField(null=True)
    time = models.TimeField(null=True)
    day = models.DateField(null=True)
    moment = models.DateTimeField(null=True)
    span = models.DurationField(null=True)
    flag = models.BooleanField(default=False)
    maybe = models.NullBooleanField()
    uid = models.UUIDField(null=True)
    ip = models.GenericIPAddressField(null=True)
    file = models.FileField(null=True, upload_to='x')
    mail = models.EmailField(null=True)
    text = models.TextField(null=True)
    short = models.CharField(max_length=3, null=True)


NAMES = [f.name for f in Source._meta.fields if f.name != 'id']


def shown(o):
    out = []
    for n in NAMES:
        v = getattr(o, n)
        if isinstance(v, memoryview):
            v = bytes(v)
        if n == 'file':
            v = str(v)
        out.append('%r' % (v,))
    return ' '.join(out)


class Mirror(models.Model):
    source = models.ForeignKey(Source, null=True, related_name='mirrors', on_delete=models.CASCADE)
    note = models.CharField(max_length=20, null=True)

    # every column of the other row
    @denormalized(models.TextField, default='')
    @depend_on_related(Source)
    @oracle
    def all(self):
        return shown(self.source) if self.source_id is not None else '-'

    key = CacheKeyField()
    key.depend_on_related(Source)


def copy_of(name, null=None):
    def fn(self):
        return getattr(self.source, name) if self.source_id is not None else null
    fn.__name__ = 'c_' + name
    fn.__qualname__ = 'Copy.' + fn.__name__
    fn.__module__ = __name__
    return depend_on_related(Source)(oracle(fn))


class Copy(models.Model):
    source = models.ForeignKey(Source, null=True, related_name='copies', on_delete=models.CASCADE)

    c_big = denormalized(models.BigIntegerField, null=True)(copy_of('big'))
    c_small = denormalized(models.SmallIntegerField, null=True)(copy_of('small'))
    c_psmall = denormalized(models.PositiveSmallIntegerField, default=0)(copy_of('psmall', 0))
    c_flt = denormalized(models.FloatField, null=True)(copy_of('flt'))
    c_dec = denormalized(models.DecimalField, max_digits=8, decimal_places=2, null=True)(copy_of('dec'))
    c_raw = denormalized(models.BinaryField, null=True)(copy_of('raw'))
    c_time = denormalized(models.TimeField, null=True)(copy_of('time'))
    c_day = denormalized(models.DateField, null=True)(copy_of('day'))
    c_moment = denormalized(models.DateTimeField, null=True)(copy_of('moment'))
    c_span = denormalized(models.DurationField, null=True)(copy_of('span'))
    c_flag = denormalized(models.BooleanField, default=False)(copy_of('flag', False))
    c_maybe = denormalized(models.NullBooleanField)(copy_of('maybe'))
    c_uid = denormalized(models.UUIDField, null=True)(copy_of('uid'))
    c_ip = denormalized(models.GenericIPAddressField, null=True)(copy_of('ip'))
    c_mail = denormalized(models.EmailField, null=True)(copy_of('mail'))
    c_short = denormalized(models.CharField, max_length=3, null=True)(copy_of('short'))


# the other direction, over the copies
class Total(models.Model):
    name = models.CharField(max_length=20, null=True)

    n_lines = CountField('line_set')
    sum_big = SumField('line_set', field='big')
    sum_small = SumField('line_set', field='small')

    @denormalized(models.FloatField, default=0)
    @depend_on_related('Line')
    @oracle
    def weight(self):
        if self.pk is None:
            return 0.0
        return sum(x.weight or 0.0 for x in self.line_set.order_by('pk'))

    @denormalized(models.DecimalField, max_digits=12, decimal_places=2, default=0)
    @depend_on_related('Line')
    @oracle
    def price(self):
        if self.pk is None:
            return D('0.00')
        return sum([x.price or D('0.00') for x in self.line_set.all()], D('0.00'))

    @denormalized(models.DateTimeField, null=True)
    @depend_on_related('Line')
    @oracle
    def last(self):
        if self.pk is None:
            return None
        return max([x.at for x in self.line_set.all() if x.at is not None] or [None])


class Line(models.Model):
    total = models.ForeignKey(Total, null=True, on_delete=models.CASCADE)
    big = models.BigIntegerField(null=True)
    small = models.PositiveSmallIntegerField(default=1)
    weight = models.FloatField(null=True)
    price = models.DecimalField(max_digits=8, decimal_places=2, null=True)
    at = models.DateTimeField(null=True)


VALUES = {
    ('Source', 'big'): [2 ** 62, 2 ** 62 + 1, 0, -2 ** 63, None],
    ('Source', 'small'): [0, -1, 32767, None],
    ('Source', 'psmall'): [0, 1, 32767],
    ('Source', 'flt'): [1e-9, 0.1, 1.5, -2.25, 1e10, None],
    ('Source', 'raw'): [b'a', b'A', b'', b'\x00\xff', None],
    ('Source', 'time'): [T(10), T(10, 0, 0, 1), T(0), None],
    ('Source', 'moment'): [datetime.datetime(2001, 1, 1, 10), datetime.datetime(2001, 1, 1, 10, 0, 0, 1),
                           datetime.datetime(2001, 1, 2), None],
    ('Source', 'span'): [TD(0), TD(microseconds=1), TD(days=-400, seconds=5), None],
    ('Source', 'ip'): ['10.0.0.1', '10.0.0.2', '::1', None],
    ('Source', 'file'): ['a/b', 'a/B', '', None],
    ('Source', 'mail'): ['a@example.org', 'A@example.org', '', None],
    ('Source', 'text'): ['x' * 300, 'x' * 299 + 'y', 'x' * 299 + 'X', '', u'é\U0001f600', None],
    ('Source', 'short'): ['a', 'A', 'a  ', '', u'é', u'e', None],
    ('Line', 'big'): [2 ** 29, 0, 1, None],
    ('Line', 'small'): [0, 1, 30000],
    ('Line', 'weight'): [1.5, 0.25, 0.0, None],
}


@aggregate('Total', 'n_lines')
def _(o):
    return Line.objects.filter(total=o.pk).count()


@aggregate('Total', 'sum_big')
def _(o):
    return sum(x or 0 for x in Line.objects.filter(total=o.pk).values_list('big', flat=True))


@aggregate('Total', 'sum_small')
def _(o):
    return sum(x or 0 for x in Line.objects.filter(total=o.pk).values_list('small', flat=True))


@cachekey('Mirror', 'key')
def _(o):
    return [shown(x) for x in Source.objects.filter(pk=o.source_id)]


@depends('Mirror')
def _(o):
    return [shown(x) for x in Source.objects.filter(pk=o.source_id)] + [o.source_id, o.note]


@depends('Copy')
def _(o):
    return [shown(x) for x in Source.objects.filter(pk=o.source_id)] + [o.source_id]
