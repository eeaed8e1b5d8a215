# -*- coding: utf-8 -*-
"""Cache keys over every kind of relation, without counters in between."""
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

from denorm import CacheKeyField, denormalized, depend_on_related
from vcase.spec import cachekey, oracle


GENERIC_KEYS = ('remark_key',)


def s(v):
    return '~' if v is None else str(v)


class Band(models.Model):
    name = models.CharField(max_length=40, null=True)
    founded = models.DateField(null=True)

    # backward foreign key
    albums_key = CacheKeyField()
    albums_key.depend_on_related('Album', foreign_key='band')
    # two dependencies of one key
    both_key = CacheKeyField()
    both_key.depend_on_related('Album', foreign_key='band')
    both_key.depend_on_related('Genre', foreign_key='bands')
    # only saved
    own_key = CacheKeyField()


class Album(models.Model):
    band = models.ForeignKey(Band, null=True, on_delete=models.CASCADE)
    producer = models.ForeignKey('Producer', null=True, related_name='albums', on_delete=models.CASCADE)
    mixer = models.ForeignKey('Producer', null=True, related_name='mixed', on_delete=models.CASCADE)
    title = models.CharField(max_length=40, null=True)
    price = models.DecimalField(max_digits=6, decimal_places=2, null=True)
    live = models.NullBooleanField()


class Producer(models.Model):
    name = models.CharField(max_length=40, null=True)


class Review(models.Model):
    album = models.ForeignKey(Album, null=True, on_delete=models.CASCADE)
    text = models.TextField(null=True)

    # forward foreign key
    album_key = CacheKeyField()
    album_key.depend_on_related('Album')


class Genre(models.Model):
    name = models.CharField(max_length=40, null=True)
    bands = models.ManyToManyField(Band)
    parent = models.ForeignKey('self', null=True, on_delete=models.CASCADE, related_name='subs')

    # forward m2m
    bands_key = CacheKeyField()
    bands_key.depend_on_related('Label')

    # denormalized field in between
    @denormalized(models.TextField, default='')
    @depend_on_related('Label')
    @oracle
    def label_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Label.objects.filter(genres=self.pk)))


class Label(models.Model):
    name = models.CharField(max_length=40, null=True)
    rank = models.IntegerField(null=True)
    genres = models.ManyToManyField(Genre, related_name='labels')


class Shop(models.Model):
    name = models.CharField(max_length=40, null=True)
    genres = models.ManyToManyField('Style', related_name='shops')

    # forward m2m on a model of its own
    style_key = CacheKeyField()
    style_key.depend_on_related('Style')
    # generic
    remark_key = CacheKeyField()
    remark_key.depend_on_related('Remark')
    remarks = GenericRelation('Remark')


class Style(models.Model):
    name = models.CharField(max_length=40, null=True)
    remarks = GenericRelation('Remark')

    remark_key = CacheKeyField()
    remark_key.depend_on_related('Remark')


class Remark(models.Model):
    text = models.CharField(max_length=40, null=True)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    target = GenericForeignKey()


class Branch(models.Model):
    parent = models.ForeignKey('self', null=True, related_name='branches', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)


def ct(m):
    return ContentType.objects.get_for_model(m).pk


@cachekey('Band', 'albums_key')
def _(o):
    return Album.objects.filter(band_id=o.pk).values_list()


@cachekey('Band', 'both_key')
def _(o):
    return list(Album.objects.filter(band_id=o.pk).values_list()) + list(
        Genre.objects.filter(bands=o.pk).values_list())


@cachekey('Band', 'own_key')
def _(o):
    return []


@cachekey('Review', 'album_key')
def _(o):
    return Album.objects.filter(pk=o.album_id).values_list()


@cachekey('Genre', 'bands_key')
def _(o):
    return Label.objects.filter(genres=o.pk).values_list()


@cachekey('Shop', 'style_key')
def _(o):
    return Style.objects.filter(shops=o.pk).values_list()


@cachekey('Shop', 'remark_key')
def _(o):
    return Remark.objects.filter(content_type_id=ct(Shop), object_id=o.pk).values_list()


@cachekey('Style', 'remark_key')
def _(o):
    return Remark.objects.filter(content_type_id=ct(Style), object_id=o.pk).values_list()
