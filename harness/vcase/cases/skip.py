# -*- coding: utf-8 -*-
"""Skipped columns: by a field, by a dependency, by the model; different ones for fields sharing tables; columns that
change with every save in models that depend on each other; columns whose names contain those of skipped ones; skipped
foreign keys and renamed columns."""
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

from denorm import CacheKeyField, denormalized, depend_on_related
from vcase.spec import cachekey, depends, oracle

GENERIC_MODELS = ('Post',)
GENERIC_KEYS = ('remarks_key',)


def s(v):
    return '~' if v is None else str(v)


class Post(models.Model):
    title = models.CharField(max_length=30, null=True)
    hits = models.IntegerField(null=True)
    hits_before = models.IntegerField(null=True)
    all_hits = models.IntegerField(null=True)
    touched = models.DateTimeField(auto_now=True)
    labels = models.ManyToManyField('Label')
    remarks = GenericRelation('Remark')

    # both sides change a column with every save
    @denormalized(models.TextField, default='', skip=('hits', 'touched'))
    @depend_on_related('Comment', skip=('seen', 'touched'))
    @oracle
    def talk(self):
        own = s(self.title) + s(self.hits_before) + s(self.all_hits)
        if self.pk is None:
            return own
        return own + ':' + ','.join(sorted(s(c.text) + s(c.seen_by) for c in self.comment_set.all()))

    @denormalized(models.TextField, default='', skip=('hits', 'touched'))
    @depend_on_related('Label', skip=('colour',))
    @oracle
    def label_names(self):
        return ','.join(sorted(s(x.name) + s(x.colour_name) for x in self.labels.all())) if self.pk is not None else ''

    @denormalized(models.TextField, default='', skip=('hits', 'touched'))
    @depend_on_related('Remark', skip=('mood',))
    @oracle
    def remark_texts(self):
        return ','.join(sorted(s(x.text) + s(x.mood_text) for x in self.remarks.all())) if self.pk is not None else ''


# keys only, so that they can't mark anything
class Feed(models.Model):
    post = models.ForeignKey(Post, null=True, on_delete=models.CASCADE)
    labels = models.ManyToManyField('Label')
    remarks = GenericRelation('Remark')

    post_key = CacheKeyField()
    post_key.depend_on_related(Post, skip=('hits', 'touched', 'talk'))
    comment_key = CacheKeyField()
    comment_key.depend_on_related('Comment', skip=('seen', 'touched'))
    labels_key = CacheKeyField()
    labels_key.depend_on_related('Label', skip=('colour',))
    remarks_key = CacheKeyField()
    remarks_key.depend_on_related('Remark', skip=('mood',))


class Comment(models.Model):
    feed = models.ForeignKey(Feed, null=True, on_delete=models.CASCADE)
    post = models.ForeignKey(Post, null=True, on_delete=models.CASCADE)
    text = models.CharField(max_length=30, null=True)
    seen = models.NullBooleanField()
    seen_by = models.CharField(max_length=30, null=True)
    touched = models.DateTimeField(auto_now=True)

    @denormalized(models.TextField, default='', skip=('seen', 'touched'))
    @depend_on_related(Post, skip=('hits', 'touched'))
    @oracle
    def post_title(self):
        return s(self.post.title) + s(self.post.all_hits) if self.post_id is not None else '-'


class Label(models.Model):
    name = models.CharField(max_length=30, null=True)
    colour = models.CharField(max_length=30, null=True)
    colour_name = models.CharField(max_length=30, null=True)


class Remark(models.Model):
    text = models.CharField(max_length=30, null=True)
    mood = models.IntegerField(null=True)
    mood_text = models.CharField(max_length=30, null=True)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')


# --- skipped by the model, and by one of its fields in addition
class Device(models.Model):
    name = models.CharField(max_length=30, null=True)
    serial = models.CharField(max_length=30, null=True)
    beat = models.IntegerField(null=True)
    beats = models.IntegerField(null=True)
    checked = models.DateTimeField(auto_now=True)

    denorm_always_skip = ('beat', 'checked')

    @denormalized(models.TextField, default='')
    @oracle
    def shown(self):
        return s(self.name) + s(self.serial) + s(self.beats)

    @denormalized(models.TextField, default='', skip=('serial',))
    @depend_on_related('Port')
    @oracle
    def ports(self):
        if self.pk is None:
            return s(self.name)
        return s(self.name) + ','.join(sorted(s(p.number) for p in self.port_set.all()))


class Port(models.Model):
    device = models.ForeignKey(Device, null=True, on_delete=models.CASCADE)
    number = models.IntegerField(null=True)
    speed = models.IntegerField(null=True)

    denorm_always_skip = ('speed',)

    @denormalized(models.TextField, default='')
    @depend_on_related(Device)
    @oracle
    def device_name(self):
        return s(self.device.name) + s(self.device.beats) if self.device_id is not None else '-'


class Plug(models.Model):
    device = models.ForeignKey(Device, null=True, on_delete=models.CASCADE)

    device_key = CacheKeyField()
    device_key.depend_on_related(Device, skip=('serial',))


# --- two fields that skip different columns of the same tables
class Meter(models.Model):
    place = models.CharField(max_length=30, null=True)
    value = models.IntegerField(null=True)
    unit = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='', skip=('value',))
    @oracle
    def sign(self):
        return s(self.place) + s(self.unit)

    @denormalized(models.TextField, default='', skip=('place',))
    @oracle
    def reading(self):
        return s(self.value) + s(self.unit)


class Panel(models.Model):
    meter = models.ForeignKey(Meter, null=True, on_delete=models.CASCADE)

    @denormalized(models.TextField, default='')
    @depend_on_related(Meter, skip=('value', 'reading'))
    @oracle
    def where(self):
        return s(self.meter.place) + s(self.meter.unit) if self.meter_id is not None else '-'


class Display(models.Model):
    meter = models.ForeignKey(Meter, null=True, on_delete=models.CASCADE)

    key = CacheKeyField()
    key.depend_on_related(Meter, skip=('value', 'reading', 'unit'))

    @denormalized(models.TextField, default='')
    @depend_on_related(Meter, skip=('place', 'sign'))
    @oracle
    def what(self):
        return s(self.meter.value) + s(self.meter.unit) if self.meter_id is not None else '-'


# --- foreign keys are skipped by the name of their value, renamed columns by the name of the field
class Site(models.Model):
    name = models.CharField(max_length=30, null=True)


class Gauge(models.Model):
    site = models.ForeignKey(Site, null=True, on_delete=models.CASCADE)
    keeper = models.ForeignKey(Site, null=True, on_delete=models.SET_NULL, related_name='kept')
    keep = models.IntegerField(null=True)
    stamp = models.IntegerField(null=True, db_column='stamped')
    note = models.CharField(max_length=30, null=True, db_column='stamp')

    @denormalized(models.TextField, default='', skip=('keeper_id', 'stamp'))
    @oracle
    def label(self):
        return s(self.site_id) + s(self.keep) + s(self.note)


class Watch(models.Model):
    gauge = models.ForeignKey(Gauge, null=True, on_delete=models.CASCADE)

    key = CacheKeyField()
    key.depend_on_related(Gauge, skip=('keeper_id', 'stamp', 'label'))

    @denormalized(models.TextField, default='')
    @depend_on_related(Gauge, skip=('keeper_id', 'stamp'))
    @oracle
    def text(self):
        return s(self.gauge.site_id) + s(self.gauge.keep) + s(self.gauge.note) if self.gauge_id is not None else '-'


SKIPPED = {
    'Gauge': ('keeper', 'stamp'),
    'Post': ('hits', 'touched'),
    'Comment': ('seen', 'touched'),
    'Device': ('beat', 'checked'),
    'Port': ('speed',),
}


def rows(qs, *skip):
    names = [f.attname for f in qs.model._meta.concrete_fields if f.attname not in skip]
    return [(qs.model.__name__,) + r for r in qs.values_list(*names)]


def remarks(o):
    return Remark.objects.filter(content_type=ContentType.objects.get_for_model(o), object_id=o.pk)


@depends('Post')
def _(o):
    return (rows(Comment.objects.filter(post=o.pk), 'seen', 'touched') + rows(Label.objects.filter(post=o.pk), 'colour') +
            rows(remarks(o), 'mood'))


@depends('Comment')
def _(o):
    return rows(Post.objects.filter(pk=o.post_id), 'hits', 'touched')


@depends('Device')
def _(o):
    return rows(Port.objects.filter(device=o.pk), 'speed')


@depends('Port')
def _(o):
    return rows(Device.objects.filter(pk=o.device_id), 'beat', 'checked')


@depends('Meter')
def _(o):
    return []


@depends('Panel')
def _(o):
    return rows(Meter.objects.filter(pk=o.meter_id), 'value', 'reading')


@depends('Display')
def _(o):
    return rows(Meter.objects.filter(pk=o.meter_id), 'place', 'sign')


@depends('Gauge')
def _(o):
    return []


@depends('Watch')
def _(o):
    return rows(Gauge.objects.filter(pk=o.gauge_id), 'keeper_id', 'stamp')


@cachekey('Watch', 'key')
def _(o):
    return rows(Gauge.objects.filter(pk=o.gauge_id), 'keeper_id', 'stamp', 'label')


@cachekey('Feed', 'post_key')
def _(o):
    return rows(Post.objects.filter(pk=o.post_id), 'hits', 'touched', 'talk')


@cachekey('Feed', 'comment_key')
def _(o):
    return rows(Comment.objects.filter(feed=o.pk), 'seen', 'touched')


@cachekey('Feed', 'labels_key')
def _(o):
    return rows(Label.objects.filter(feed=o.pk), 'colour')


@cachekey('Feed', 'remarks_key')
def _(o):
    return rows(remarks(o), 'mood')


@cachekey('Plug', 'device_key')
def _(o):
    return rows(Device.objects.filter(pk=o.device_id), 'beat', 'checked', 'serial')


@cachekey('Display', 'key')
def _(o):
    return rows(Meter.objects.filter(pk=o.meter_id), 'value', 'reading', 'unit')
