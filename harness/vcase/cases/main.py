# -*- coding: utf-8 -*-
"""The broad workload schema: every kind of relation, chains, trees, counters and cache keys together."""
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, depends, oracle


GENERIC_MODELS = ('Box', 'Item')


def s(v):
    return '~' if v is None else str(v)


class Tag(models.Model):
    name = models.CharField(max_length=40, null=True)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')


class Tagged(models.Model):
    tags = GenericRelation(Tag)

    @denormalized(models.TextField, default='')
    @depend_on_related(Tag)
    @oracle
    def tags_string(self):
        if not self.pk:
            return ''
        return ','.join(sorted(s(t.name) for t in self.tags.all()))

    class Meta:
        abstract = True


class Person(models.Model):
    first = models.CharField(max_length=40, null=True)
    last = models.CharField(max_length=40)
    likes = models.ManyToManyField('Item', blank=True)

    ckey = CacheKeyField()
    ckey.depend_on_related('Item', foreign_key='likes')

    @denormalized(models.CharField, max_length=120)
    @oracle
    def full_name(self):
        return '%s %s' % (s(self.first), self.last)

    # forward m2m
    @denormalized(models.TextField, null=True, blank=True)
    @depend_on_related('Item', foreign_key='likes')
    @oracle
    def liked(self):
        if not self.pk:
            return ''
        return ','.join(sorted('%s/%s' % (s(i.name), i.qty) for i in self.likes.all()))

    # backward one-to-one
    @denormalized(models.TextField, null=True)
    @depend_on_related('Profile')
    @oracle
    def bio(self):
        if not self.pk:
            return None
        p = Profile.objects.filter(person_id=self.pk).first()
        return p.bio if p else None


class Profile(models.Model):
    person = models.OneToOneField(Person, on_delete=models.CASCADE)
    bio = models.TextField(null=True)

    # forward one-to-one, chained on another denormalized field
    @denormalized(models.CharField, max_length=160)
    @depend_on_related('Person')
    @oracle
    def person_name(self):
        return '<%s>' % self.person.full_name


class Shelf(models.Model):
    name = models.CharField(max_length=40)
    n_boxes = CountField('boxes')

    ckey = CacheKeyField()
    ckey.depend_on_related('Box')

    # backward foreign key, chained on a counter and on another callback
    @denormalized(models.TextField, default='')
    @depend_on_related('Box')
    @oracle
    def contents(self):
        if not self.pk:
            return ''
        return '|'.join(sorted(s(b.summary) for b in self.boxes.all()))

    # denormalized m2m
    @denormalized(models.ManyToManyField, 'Person', blank=True, related_name='shelves')
    @depend_on_related('Box')
    @oracle
    def keepers(self):
        return [b.keeper for b in self.boxes.all() if b.keeper_id is not None]


class Box(Tagged):
    shelf = models.ForeignKey(Shelf, null=True, related_name='boxes', on_delete=models.CASCADE)
    keeper = models.ForeignKey(Person, null=True, related_name='kept', on_delete=models.SET_NULL)
    label = models.CharField(max_length=40, null=True)
    note = models.TextField(null=True)
    weight = models.IntegerField(null=True)
    sealed = models.NullBooleanField()
    packed = models.DateField(null=True)
    volume = models.DecimalField(max_digits=8, decimal_places=2, null=True)

    n_items = CountField('item_set')
    n_spare = CountField('spares')
    qty_sum = SumField('item_set', field='qty')

    # own columns, including counters that only triggers write
    @denormalized(models.TextField, default='')
    @oracle
    def summary(self):
        return ':'.join(s(v) for v in (self.label, self.note, self.weight, self.sealed, self.packed,
                                       None if self.volume is None else '%.2f' % self.volume,
                                       self.n_items, self.n_spare, self.qty_sum))

    # backward foreign key
    @denormalized(models.TextField, default='')
    @depend_on_related('Item', foreign_key='box')
    @oracle
    def item_names(self):
        if not self.pk:
            return ''
        return ','.join(sorted('%s*%s' % (s(i.name), i.qty) for i in self.item_set.all()))

    # two relations between the same models
    @denormalized(models.TextField, default='')
    @depend_on_related('Item', foreign_key='spare_box')
    @oracle
    def spare_names(self):
        if not self.pk:
            return ''
        return ','.join(sorted(s(i.name) for i in self.spares.all()))


class Item(Tagged):
    box = models.ForeignKey(Box, null=True, on_delete=models.CASCADE)
    spare_box = models.ForeignKey(Box, null=True, related_name='spares', on_delete=models.SET_NULL)
    name = models.CharField(max_length=40, null=True)
    qty = models.PositiveIntegerField(default=1)

    # forward foreign key
    @denormalized(models.CharField, max_length=80, null=True)
    @depend_on_related(Box, foreign_key='box')
    @oracle
    def box_label(self):
        return self.box.label if self.box_id is not None else None

    @denormalized(models.TextField, default='')
    @depend_on_related(Box, foreign_key='spare_box')
    @oracle
    def spare_note(self):
        return s(self.spare_box.note) if self.spare_box_id is not None else '-'

    # backward m2m, chained on a denormalized field
    @denormalized(models.TextField, default='')
    @depend_on_related('Person')
    @oracle
    def fans(self):
        if not self.pk:
            return ''
        return ','.join(sorted(p.full_name for p in self.person_set.all()))


class Sticker(models.Model):
    item = models.ForeignKey(Item, null=True, on_delete=models.CASCADE)
    text = models.CharField(max_length=40, null=True)

    ckey = CacheKeyField()
    ckey.depend_on_related('Item')

    # denormalized foreign keys: one as primary key, one as instance
    @denormalized(models.ForeignKey, Box, null=True, related_name='+', on_delete=models.SET_NULL)
    @depend_on_related(Item)
    @oracle
    def on_box(self):
        return self.item.box_id if self.item_id is not None else None

    @denormalized(models.ForeignKey, Box, null=True, related_name='+', on_delete=models.SET_NULL)
    @depend_on_related(Item)
    @oracle
    def spare_obj(self):
        return self.item.spare_box if self.item_id is not None else None


class Node(models.Model):
    parent = models.ForeignKey('self', null=True, related_name='children', on_delete=models.CASCADE)
    title = models.CharField(max_length=20, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward')
    @oracle
    def path(self):
        if self.parent_id is not None:
            return '%s/%s' % (self.parent.path, s(self.title))
        return '/%s' % s(self.title)

    @denormalized(models.PositiveIntegerField, default=0)
    @depend_on_related('self', type='backward')
    @oracle
    def weight(self):
        if not self.pk:
            return 0
        return sum(1 + c.weight for c in self.children.all())


@aggregate('Shelf', 'n_boxes')
def _(o):
    return Box.objects.filter(shelf_id=o.pk).count()


@aggregate('Box', 'n_items')
def _(o):
    return Item.objects.filter(box_id=o.pk).count()


@aggregate('Box', 'n_spare')
def _(o):
    return Item.objects.filter(spare_box_id=o.pk).count()


@aggregate('Box', 'qty_sum')
def _(o):
    return sum(Item.objects.filter(box_id=o.pk).values_list('qty', flat=True))


@cachekey('Shelf', 'ckey')
def _(o):
    return sorted(Box.objects.filter(shelf_id=o.pk).values_list())


@cachekey('Person', 'ckey')
def _(o):
    return sorted(Item.objects.filter(person=o.pk).values_list())


@cachekey('Sticker', 'ckey')
def _(o):
    return sorted(Item.objects.filter(pk=o.item_id).values_list())


def rows(*querysets):
    return [(i,) + r for i, qs in enumerate(querysets) for r in qs.values_list()]


def tags(o):
    return Tag.objects.filter(content_type=ContentType.objects.get_for_model(o), object_id=o.pk)


@depends('Person')
def _(o):
    return rows(Item.objects.filter(person=o.pk), Profile.objects.filter(person=o.pk))


@depends('Profile')
def _(o):
    return rows(Person.objects.filter(pk=o.person_id))


# the triggers of counters write the counting row whenever a counted row changes, so the counted rows count as well
@depends('Shelf')
def _(o):
    return rows(Box.objects.filter(shelf=o.pk), Item.objects.filter(box__shelf=o.pk), Item.objects.filter(spare_box__shelf=o.pk))


@depends('Box')
def _(o):
    return rows(Item.objects.filter(box=o.pk), Item.objects.filter(spare_box=o.pk), tags(o))


@depends('Item')
def _(o):
    boxes = [o.box_id, o.spare_box_id]
    return rows(Box.objects.filter(pk=o.box_id), Box.objects.filter(pk=o.spare_box_id), Person.objects.filter(likes=o.pk),
                tags(o), Item.objects.filter(box__in=boxes), Item.objects.filter(spare_box__in=boxes))


@depends('Sticker')
def _(o):
    return rows(Item.objects.filter(pk=o.item_id))


@depends('Node')
def _(o):
    return rows(Node.objects.filter(pk=o.parent_id), Node.objects.filter(parent=o.pk))
