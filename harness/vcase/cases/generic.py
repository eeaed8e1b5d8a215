# -*- coding: utf-8 -*-
"""Generic relations used from the side of the rows that hold the generic key, and generic keys that are text."""
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

from denorm import CacheKeyField, denormalized, depend_on_related
from vcase.spec import cachekey, depends, oracle

GENERIC_MODELS = ('Desk',)
GENERIC_KEYS = ('slips_key', 'locks_key')


def s(v):
    return '~' if v is None else str(v)


def target(o, *models):
    """The row a generic key points to, read anew, if it belongs to one of the models."""
    m = ContentType.objects.get_for_id(o.content_type_id).model_class()
    return m._base_manager.filter(pk=o.object_id).first() if m in models else None


class Desk(models.Model):
    name = models.CharField(max_length=40, null=True)
    memos = GenericRelation('Memo')
    slips = GenericRelation('Slip')
    pins = GenericRelation('Pin')

    slips_key = CacheKeyField()
    slips_key.depend_on_related('Slip')

    @denormalized(models.TextField, default='')
    @depend_on_related('Slip')
    @oracle
    def slip_texts(self):
        return ','.join(sorted(s(x.text) for x in self.slips.all())) if self.pk is not None else ''


class Chair(models.Model):
    name = models.CharField(max_length=40, null=True)
    memos = GenericRelation('Memo')
    slips = GenericRelation('Slip')
    pins = GenericRelation('Pin')


class Memo(models.Model):
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey()

    @denormalized(models.TextField, default='')
    @depend_on_related(Desk)
    @oracle
    def desk_name(self):
        o = target(self, Desk)
        return s(o.name) if o else '-'

    @denormalized(models.TextField, default='')
    @depend_on_related(Desk, foreign_key='memos', type='backward_m2m')
    @depend_on_related('Chair')
    @oracle
    def name(self):
        o = target(self, Desk, Chair)
        return s(o.name) if o else '-'


class Slip(models.Model):
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey()
    text = models.CharField(max_length=40, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Chair')
    @oracle
    def chair_name(self):
        o = target(self, Chair)
        return s(o.name) if o else '-'


class Pin(models.Model):
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey()

    desk_key = CacheKeyField()
    desk_key.depend_on_related('Desk')
    any_key = CacheKeyField()
    any_key.depend_on_related('Desk')
    any_key.depend_on_related('Chair')


# --- text
class Crate(models.Model):
    code = models.CharField(max_length=20, primary_key=True)
    name = models.CharField(max_length=40, null=True)
    seals = GenericRelation('Seal', content_type_field='kind', object_id_field='thing')
    locks = GenericRelation('Lock', content_type_field='kind', object_id_field='thing')

    locks_key = CacheKeyField()
    locks_key.depend_on_related('Lock')


class Seal(models.Model):
    kind = models.ForeignKey(ContentType, on_delete=models.CASCADE, db_column='kind_of')
    thing = models.CharField(max_length=20, db_column='thing_at')
    content_object = GenericForeignKey('kind', 'thing')

    key = CacheKeyField()
    key.depend_on_related(Crate)

    @denormalized(models.TextField, default='')
    @depend_on_related(Crate)
    @oracle
    def crate_name(self):
        o = Crate.objects.filter(pk=self.thing).first()
        return s(o.name) if o else '-'


class Lock(models.Model):
    kind = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    thing = models.CharField(max_length=20)
    content_object = GenericForeignKey('kind', 'thing')
    text = models.CharField(max_length=40, null=True)


def rows(*querysets):
    return [(i,) + r for i, qs in enumerate(querysets) for r in qs.values_list()]


def slips(o):
    return Slip.objects.filter(content_type=ContentType.objects.get_for_model(o), object_id=o.pk)


def objects(o, *models):
    x = target(o, *models)
    return [] if x is None else rows(type(x)._base_manager.filter(pk=x.pk))


@depends('Desk')
def _(o):
    return rows(slips(o))


@depends('Memo')
def _(o):
    return objects(o, Desk, Chair)


@depends('Slip')
def _(o):
    return objects(o, Chair)


@cachekey('Desk', 'slips_key')
def _(o):
    return rows(slips(o))


@cachekey('Pin', 'desk_key')
def _(o):
    return objects(o, Desk)


@cachekey('Pin', 'any_key')
def _(o):
    return objects(o, Desk, Chair)


@depends('Seal')
def _(o):
    return rows(Crate.objects.filter(pk=o.thing))


@cachekey('Crate', 'locks_key')
def _(o):
    return rows(Lock.objects.filter(thing=o.pk))


@cachekey('Seal', 'key')
def _(o):
    return rows(Crate.objects.filter(pk=o.thing))
