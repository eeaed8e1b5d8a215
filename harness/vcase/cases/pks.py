# -*- coding: utf-8 -*-
"""Primary keys that are not small integers: text with quotes and percent signs, UUIDs, negative/huge integers, and
models whose primary key has another name or is itself a relation."""
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, depends, oracle

def s(v):
    return '~' if v is None else str(v)


class Town(models.Model):
    code = models.CharField(max_length=20, primary_key=True)
    name = models.CharField(max_length=40, null=True)

    n_streets = CountField('streets')
    len_sum = SumField('streets', field='length')
    ckey = CacheKeyField()
    ckey.depend_on_related('Street', foreign_key='town')

    @denormalized(models.TextField, default='')
    @depend_on_related('Street', foreign_key='town')
    @oracle
    def names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Street.objects.filter(town_id=self.pk)))


class Street(models.Model):
    uid = models.UUIDField(primary_key=True)
    town = models.ForeignKey(Town, null=True, related_name='streets', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)
    length = models.PositiveIntegerField(default=3)
    lines = models.ManyToManyField('Line', related_name='streets')

    @denormalized(models.TextField, default='')
    @depend_on_related('Town', foreign_key='town')
    @oracle
    def town_name(self):
        return s(self.town.name) if self.town_id is not None else '-'

    @denormalized(models.TextField, default='')
    @depend_on_related('Line', foreign_key='lines')
    @oracle
    def line_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted('%s=%s' % (x.number, x.colour) for x in Line.objects.filter(streets=self.pk)))

    @denormalized(models.ForeignKey, Town, null=True, related_name='+', on_delete=models.SET_NULL)
    @depend_on_related('Town', foreign_key='town')
    @oracle
    def town_again(self):
        return self.town_id


class Line(models.Model):
    number = models.IntegerField(primary_key=True)
    colour = models.CharField(max_length=10, default='red')

    ckey = CacheKeyField()
    ckey.depend_on_related('Street', foreign_key='lines')

    @denormalized(models.TextField, default='')
    @depend_on_related('Street', foreign_key='lines')
    @oracle
    def street_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Street.objects.filter(lines=self.pk)))

    @denormalized(models.ManyToManyField, 'Town', blank=True, related_name='through_lines')
    @depend_on_related('Street', foreign_key='lines')
    @oracle
    def towns(self):
        if self.pk is None:
            return ''
        return [x.town_id for x in Street.objects.filter(lines=self.pk) if x.town_id is not None]


class Mayor(models.Model):
    # the primary key is the relation
    town = models.OneToOneField(Town, primary_key=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Town')
    @oracle
    def title(self):
        return 'Mayor of %s' % s(self.town.name)


class Speech(models.Model):
    mayor = models.ForeignKey(Mayor, null=True, related_name='speeches', on_delete=models.CASCADE)
    text = models.CharField(max_length=40, null=True)

    ckey = CacheKeyField()
    ckey.depend_on_related('Mayor')

    @denormalized(models.TextField, default='')
    @depend_on_related('Mayor')
    @oracle
    def speaker(self):
        return '%s/%s' % (s(self.mayor.name), self.mayor.title) if self.mayor_id is not None else '-'


@aggregate('Town', 'n_streets')
def _(o):
    return Street.objects.filter(town_id=o.pk).count()


@aggregate('Town', 'len_sum')
def _(o):
    return sum(Street.objects.filter(town_id=o.pk).values_list('length', flat=True))


@cachekey('Town', 'ckey')
def _(o):
    return Street.objects.filter(town_id=o.pk).values_list()


@cachekey('Speech', 'ckey')
def _(o):
    return Mayor.objects.filter(pk=o.mayor_id).values_list()


@cachekey('Line', 'ckey')
def _(o):
    return Street.objects.filter(lines=o.pk).values_list()


def rows(*querysets):
    return [(i,) + r for i, qs in enumerate(querysets) for r in qs.values_list()]


@depends('Town')
def _(o):
    return rows(Street.objects.filter(town=o.pk))


# the triggers of counters write the counting row whenever a counted row changes, so the counted rows count as well
@depends('Street')
def _(o):
    return rows(Town.objects.filter(pk=o.town_id), Street.objects.filter(town=o.town_id, town__isnull=False), Line.objects.filter(streets=o.pk))


@depends('Line')
def _(o):
    return rows(Street.objects.filter(lines=o.pk))


@depends('Mayor')
def _(o):
    return rows(Town.objects.filter(pk=o.town_id), Street.objects.filter(town=o.town_id))


@depends('Speech')
def _(o):
    return rows(Mayor.objects.filter(pk=o.mayor_id))
