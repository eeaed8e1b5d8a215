# -*- coding: utf-8 -*-
"""Denormalized columns that have neither a default nor NULL."""
import datetime

from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, depends, oracle


class Depot(models.Model):
    name = models.CharField(max_length=40, null=True)

    n_wares = CountField('wares')
    n_pieces = SumField('wares', field='pieces')


class Ware(models.Model):
    depot = models.ForeignKey(Depot, related_name='wares', on_delete=models.CASCADE)
    pieces = models.PositiveIntegerField(default=1)
    price = models.PositiveIntegerField(default=2)

    @denormalized(models.IntegerField)
    @oracle
    def total(self):
        return self.pieces * self.price

    @denormalized(models.DateField)
    @oracle
    def due(self):
        return datetime.date(2020, 1, 1) + datetime.timedelta(days=self.pieces % 1000)

    @denormalized(models.ForeignKey, Depot, related_name='+', on_delete=models.CASCADE)
    @oracle
    def home(self):
        return self.depot_id

    @denormalized(models.CharField, max_length=60)
    @depend_on_related(Depot, foreign_key='depot')
    @oracle
    def depot_name(self):
        return str(self.depot.name)


class Crew(models.Model):
    depot = models.ForeignKey(Depot, on_delete=models.CASCADE)
    wares = models.ManyToManyField(Ware)

    key = CacheKeyField()
    key.depend_on_related(Ware)

    @denormalized(models.IntegerField)
    @depend_on_related(Ware)
    @oracle
    def worth(self):
        return sum(x.total for x in self.wares.all()) if self.pk is not None else 0


@aggregate('Depot', 'n_wares')
def _(o):
    return Ware.objects.filter(depot=o.pk).count()


@aggregate('Depot', 'n_pieces')
def _(o):
    return sum(Ware.objects.filter(depot=o.pk).values_list('pieces', flat=True))


@cachekey('Crew', 'key')
def _(o):
    return [tuple(r) for r in Ware.objects.filter(crew=o.pk).values_list()]


@depends('Depot')
def _(o):
    return []


@depends('Ware')
def _(o):
    return list(Depot.objects.filter(pk=o.depot_id).values_list())


@depends('Crew')
def _(o):
    return list(Ware.objects.filter(crew=o.pk).values_list())
