# -*- coding: utf-8 -*-
"""Declarations out of the ordinary: objects that are false or empty, managers that hide rows, relations to and fields
through proxies, swapped models, keys made by the application, many-to-many fields of new objects, models saved with
select_on_save or ordered by their parent, several fields in one chain on one model."""
import uuid

from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, oracle


def s(v):
    return '~' if v is None else str(v)


# --- false and empty objects
class Basket(models.Model):
    name = models.CharField(max_length=30, null=True)

    n_eggs = CountField('eggs', editable=True)

    @denormalized(models.TextField, default='', editable=True)
    @depend_on_related('Egg', foreign_key='basket')
    @oracle
    def colours(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(e.colour) for e in self.eggs.all()))

    def __len__(self):
        return 0


class Egg(models.Model):
    basket = models.ForeignKey(Basket, null=True, related_name='eggs', on_delete=models.CASCADE)
    colour = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related(Basket, foreign_key='basket')
    @oracle
    def basket_name(self):
        return s(self.basket.name) if self.basket_id is not None else '-'

    # an object that is false as the value
    @denormalized(models.ForeignKey, Basket, null=True, related_name='+', on_delete=models.SET_NULL)
    @depend_on_related(Basket, foreign_key='basket')
    @oracle
    def in_basket(self):
        return self.basket if self.basket_id is not None else None

    def __bool__(self):
        return False
    __nonzero__ = __bool__


# --- rows hidden by the default manager
class Visible(models.Manager):
    def get_queryset(self):
        return super(Visible, self).get_queryset().filter(hidden=False)


class Writer(models.Model):
    hidden = models.BooleanField(default=False)
    name = models.CharField(max_length=30, null=True)

    objects = Visible()
    everything = models.Manager()

    n_texts = CountField('text_set')

    @denormalized(models.TextField, default='')
    @depend_on_related('Text')
    @oracle
    def titles(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(t.title) for t in self.text_set.all()))


class Text(models.Model):
    hidden = models.BooleanField(default=False)
    writer = models.ForeignKey(Writer, null=True, on_delete=models.CASCADE)
    title = models.CharField(max_length=30, null=True)

    objects = Visible()

    @denormalized(models.TextField, default='')
    @depend_on_related(Writer)
    @oracle
    def by(self):
        return s(self.writer.name) if self.writer_id is not None else '-'


class Portrait(models.Model):
    writer = models.ForeignKey(Writer, null=True, on_delete=models.CASCADE)

    key = CacheKeyField(editable=True)
    key.depend_on_related(Writer)


# --- proxies
class Vehicle(models.Model):
    name = models.CharField(max_length=30, null=True)

    n_wheels = CountField('wheels')

    @denormalized(models.TextField, default='')
    @depend_on_related('Wheel')
    @oracle
    def sizes(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(w.size) for w in Wheel.objects.filter(vehicle_id=self.pk)))


class Car(Vehicle):
    class Meta:
        proxy = True


class Wheel(models.Model):
    vehicle = models.ForeignKey(Vehicle, null=True, related_name='wheels', on_delete=models.CASCADE)
    size = models.IntegerField(null=True)


class Driver(models.Model):
    car = models.ForeignKey(Car, null=True, on_delete=models.CASCADE)

    @denormalized(models.TextField, default='')
    @depend_on_related(Car)
    @oracle
    def drives(self):
        return '%s %s' % (s(self.car.name), self.car.sizes) if self.car_id is not None else '-'


class Stone(models.Model):
    name = models.CharField(max_length=30, null=True)
    weight = models.IntegerField(null=True)


class Gem(Stone):
    class Meta:
        proxy = True


class Ring(models.Model):
    gem = models.ForeignKey(Gem, null=True, on_delete=models.CASCADE)

    key = CacheKeyField()
    key.depend_on_related(Gem)

    @denormalized(models.TextField, default='')
    @depend_on_related(Gem)
    @oracle
    def shows(self):
        return '%s %s' % (s(self.gem.name), s(self.gem.weight)) if self.gem_id is not None else '-'


# --- swapped
class AbstractAccount(models.Model):
    login = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Session')
    @oracle
    def hosts(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.host) for x in Session.objects.filter(account_id=self.pk)))

    class Meta:
        abstract = True


class Account(AbstractAccount):
    n_sessions = CountField('session_set')
    key = CacheKeyField()
    key.depend_on_related('Session')

    class Meta:
        swappable = 'VCASE_ACCOUNT'


class MyAccount(AbstractAccount):
    n_sessions = CountField('session_set')
    note = models.CharField(max_length=30, null=True)


class Session(models.Model):
    account = models.ForeignKey('MyAccount', null=True, on_delete=models.CASCADE)
    host = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('MyAccount')
    @oracle
    def who(self):
        return s(self.account.login) if self.account_id is not None else '-'


# --- keys made by the application, m2m values of new objects
class Guest(models.Model):
    id = models.UUIDField(primary_key=True, default=uuid.uuid4)
    name = models.CharField(max_length=30, null=True)


class Party(models.Model):
    id = models.UUIDField(primary_key=True, default=uuid.uuid4)
    host = models.ForeignKey(Guest, null=True, related_name='hosted', on_delete=models.CASCADE)
    place = models.CharField(max_length=30, null=True)

    @denormalized(models.ManyToManyField, Guest, blank=True, related_name='parties')
    @depend_on_related(Guest, foreign_key='host')
    @oracle
    def hosts(self):
        return [self.host] if self.host_id is not None else []


class Gala(models.Model):
    host = models.ForeignKey(Guest, null=True, related_name='galas', on_delete=models.CASCADE)

    @denormalized(models.ManyToManyField, Guest, blank=True, related_name='attended')
    @depend_on_related(Guest, foreign_key='host')
    @oracle
    def hosts(self):
        return [self.host_id] if self.host_id is not None else []


# --- options of the model
class Chapter(models.Model):
    title = models.CharField(max_length=30, null=True)
    n_pages = CountField('page_set')
    n_words = SumField('page_set', field='words', editable=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Page')
    @oracle
    def head(self):
        if self.pk is None:
            return '%s ' % s(self.title)
        return '%s %s' % (s(self.title), ' '.join(str(p.words) for p in sorted(self.page_set.all(), key=lambda p: p.pk)))

    class Meta:
        select_on_save = True
        ordering = ['-title']
        default_permissions = ()


class Page(models.Model):
    chapter = models.ForeignKey(Chapter, on_delete=models.CASCADE)
    words = models.PositiveIntegerField(default=5)

    @denormalized(models.TextField, default='')
    @depend_on_related(Chapter)
    @oracle
    def running_title(self):
        return s(self.chapter.title)

    class Meta:
        order_with_respect_to = 'chapter'
        get_latest_by = 'words'


@aggregate('Basket', 'n_eggs')
def _(o):
    return Egg._base_manager.filter(basket=o.pk).count()


@aggregate('Writer', 'n_texts')
def _(o):
    return Text._base_manager.filter(writer=o.pk).count()


@aggregate('Vehicle', 'n_wheels')
def _(o):
    return Wheel.objects.filter(vehicle=o.pk).count()


@aggregate('MyAccount', 'n_sessions')
def _(o):
    return Session.objects.filter(account=o.pk).count()


@aggregate('Chapter', 'n_pages')
def _(o):
    return Page.objects.filter(chapter=o.pk).count()


@aggregate('Chapter', 'n_words')
def _(o):
    return sum(Page.objects.filter(chapter=o.pk).values_list('words', flat=True))


@cachekey('Portrait', 'key')
def _(o):
    return list(Writer._base_manager.filter(pk=o.writer_id).values_list())


@cachekey('Ring', 'key')
def _(o):
    return list(Stone.objects.filter(pk=o.gem_id).values_list())
