# -*- coding: utf-8 -*-
"""Relations without a constraint in the database: the other row may come later, leave earlier and come back."""
from django.db import models

from denorm import CacheKeyField, denormalized, depend_on_related
from vcase.spec import cachekey, depends, oracle


def s(v):
    return '~' if v is None else str(v)


class Land(models.Model):
    code = models.CharField(max_length=10, primary_key=True)
    name = models.CharField(max_length=30, null=True)
    flag = models.CharField(max_length=30, default='plain')


class Town(models.Model):
    land = models.ForeignKey(Land, null=True, related_name='towns', db_constraint=False, on_delete=models.DO_NOTHING)
    name = models.CharField(max_length=30, null=True)

    # the row pointed to comes and goes
    @denormalized(models.TextField, default='')
    @depend_on_related(Land)
    @oracle
    def land_name(self):
        return ','.join('%s/%s' % (s(x.name), x.flag) for x in Land.objects.filter(pk=self.land_id))

    key = CacheKeyField()
    key.depend_on_related(Land)


class Street(models.Model):
    town = models.ForeignKey(Town, null=True, on_delete=models.CASCADE)
    number = models.IntegerField(null=True)

    # over a value that changes when a row appears
    @denormalized(models.TextField, default='')
    @depend_on_related(Town)
    @oracle
    def address(self):
        return '%s %s' % (s(self.number), self.town.land_name if self.town_id is not None else '-')


class Owner(models.Model):
    id = models.IntegerField(primary_key=True)
    name = models.CharField(max_length=30, null=True)

    # rows pointing here may be older than this one
    @denormalized(models.TextField, default='')
    @depend_on_related('Dog')
    @oracle
    def dogs(self):
        return ','.join(sorted(s(d.name) for d in Dog.objects.filter(owner_id=self.pk)))

    key = CacheKeyField()
    key.depend_on_related('Dog')


class Dog(models.Model):
    owner = models.ForeignKey(Owner, null=True, db_constraint=False, on_delete=models.DO_NOTHING)
    name = models.CharField(max_length=30, null=True)


# one to one, and to the own model
class Seat(models.Model):
    id = models.IntegerField(primary_key=True)
    label = models.CharField(max_length=30, null=True)
    near = models.ForeignKey('self', null=True, db_constraint=False, on_delete=models.DO_NOTHING)

    @denormalized(models.TextField, default='')
    @depend_on_related('self')
    @oracle
    def near_label(self):
        return ','.join(s(x.label) for x in Seat.objects.filter(pk=self.near_id))


class Ticket(models.Model):
    seat = models.OneToOneField(Seat, null=True, db_constraint=False, on_delete=models.DO_NOTHING)
    price = models.IntegerField(null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related(Seat)
    @oracle
    def seat_label(self):
        return ','.join('%s-%s' % (s(x.label), x.near_label) for x in Seat.objects.filter(pk=self.seat_id))


@cachekey('Town', 'key')
def _(o):
    return list(Land.objects.filter(pk=o.land_id).values_list())


@cachekey('Owner', 'key')
def _(o):
    return list(Dog.objects.filter(owner_id=o.pk).values_list())


@depends('Town')
def _(o):
    return list(Land.objects.filter(pk=o.land_id).values_list())


@depends('Street')
def _(o):
    return list(Town.objects.filter(pk=o.town_id).values_list())


@depends('Owner')
def _(o):
    return list(Dog.objects.filter(owner_id=o.pk).values_list())
