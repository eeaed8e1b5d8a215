# -*- coding: utf-8 -*-
"""Foreign keys to other unique columns than the primary key: text, and numbers that are also primary keys of other rows."""
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, depends, oracle


def s(v):
    return '~' if v is None else str(v)


class Land(models.Model):
    code = models.CharField(max_length=20, unique=True)
    name = models.CharField(max_length=40, null=True)

    n_ports = CountField('ports')
    depth_sum = SumField('ports', field='depth')
    ckey = CacheKeyField()
    ckey.depend_on_related('Port', foreign_key='land')

    @denormalized(models.TextField, default='')
    @depend_on_related('Port', foreign_key='land')
    @oracle
    def names(self):
        return ','.join(sorted(s(x.name) for x in Port.objects.filter(land_id=self.code)))


class Port(models.Model):
    # numbers that look like primary keys
    number = models.IntegerField(unique=True, db_column='No')
    land = models.ForeignKey(Land, null=True, to_field='code', related_name='ports', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)
    depth = models.PositiveIntegerField(default=3)

    @denormalized(models.TextField, default='')
    @depend_on_related(Land, foreign_key='land')
    @oracle
    def land_name(self):
        return s(Land.objects.get(code=self.land_id).name) if self.land_id is not None else '-'

    @denormalized(models.TextField, default='')
    @depend_on_related('Ship')
    @oracle
    def ships(self):
        return ','.join(sorted(s(x.name) for x in Ship.objects.filter(home_id=self.number)))

    @denormalized(models.ForeignKey, Land, null=True, to_field='code', related_name='+', on_delete=models.SET_NULL)
    @depend_on_related(Land, foreign_key='land')
    @oracle
    def land_again(self):
        return self.land_id


class Ship(models.Model):
    home = models.ForeignKey(Port, null=True, to_field='number', on_delete=models.SET_NULL)
    name = models.CharField(max_length=40, null=True)

    # over two of them
    @denormalized(models.TextField, default='')
    @depend_on_related(Port)
    @oracle
    def home_name(self):
        if self.home_id is None:
            return '-'
        port = Port.objects.get(number=self.home_id)
        return '%s in %s' % (s(port.name), port.land_name)


class Pilot(models.Model):
    port = models.OneToOneField(Port, to_field='number', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related(Port)
    @oracle
    def place(self):
        return s(Port.objects.get(number=self.port_id).name)


class Buoy(models.Model):
    port = models.ForeignKey(Port, null=True, to_field='number', on_delete=models.CASCADE)
    ckey = CacheKeyField()
    ckey.depend_on_related(Port)


class Rank(models.Model):
    badge = models.IntegerField(unique=True)
    above = models.ForeignKey('self', null=True, to_field='badge', related_name='below', on_delete=models.CASCADE)
    title = models.CharField(max_length=20, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward')
    @oracle
    def path(self):
        if self.above_id is None:
            return '/%s' % s(self.title)
        return '%s/%s' % (Rank.objects.get(badge=self.above_id).path, s(self.title))

    @denormalized(models.PositiveIntegerField, default=0)
    @depend_on_related('self', type='backward')
    @oracle
    def n_below(self):
        return sum(1 + x.n_below for x in Rank.objects.filter(above_id=self.badge))


VALUES = {
    ('Port', 'number'): list(range(1, 9)),
    ('Rank', 'badge'): list(range(1, 9)),
    ('Land', 'code'): ['k1', 'k 2', "k'3", 'k%4', u'k\xe95', '6', '1', '2'],
}


@aggregate('Land', 'n_ports')
def _(o):
    return Port.objects.filter(land_id=o.code).count()


@aggregate('Land', 'depth_sum')
def _(o):
    return sum(Port.objects.filter(land_id=o.code).values_list('depth', flat=True))


@cachekey('Land', 'ckey')
def _(o):
    return Port.objects.filter(land_id=o.code).values_list()


@cachekey('Buoy', 'ckey')
def _(o):
    return Port.objects.filter(number=o.port_id).values_list()


def rows(*querysets):
    return [(i,) + r for i, qs in enumerate(querysets) for r in qs.values_list()]


@depends('Land')
def _(o):
    return rows(Port.objects.filter(land_id=o.code))


@depends('Port')
def _(o):
    return rows(Land.objects.filter(code=o.land_id), Port.objects.filter(land_id=o.land_id, land__isnull=False),
                Ship.objects.filter(home_id=o.number))


@depends('Ship')
def _(o):
    return rows(Port.objects.filter(number=o.home_id))


@depends('Pilot')
def _(o):
    return rows(Port.objects.filter(number=o.port_id))


@depends('Rank')
def _(o):
    return rows(Rank.objects.filter(badge=o.above_id), Rank.objects.filter(above_id=o.badge))
