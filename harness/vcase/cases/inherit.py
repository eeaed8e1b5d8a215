# -*- coding: utf-8 -*-
"""Inheritance: abstract bases shared by several models, multi-table inheritance and proxies."""
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, oracle


def s(v):
    return '~' if v is None else str(v)


class Owner(models.Model):
    name = models.CharField(max_length=40, null=True)

    n_cats = CountField('cats')
    n_dogs = CountField('dogs')
    age_sum = SumField('dogs', field='age')

    @denormalized(models.TextField, default='')
    @depend_on_related('Cat')
    @oracle
    def cat_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Cat.objects.filter(owner_id=self.pk)))

    @denormalized(models.TextField, default='')
    @depend_on_related('Dog')
    @oracle
    def dog_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Dog.objects.filter(owner_id=self.pk)))


class Vet(models.Model):
    name = models.CharField(max_length=40, null=True)


class Animal(models.Model):
    vet = models.ForeignKey(Vet, null=True, related_name='%(class)s_patients', on_delete=models.SET_NULL)
    owner = models.ForeignKey(Owner, null=True, related_name='%(class)ss', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)
    age = models.PositiveIntegerField(default=1)

    # one declaration, several models
    ckey = CacheKeyField()
    ckey.depend_on_related('Vet')

    @denormalized(models.TextField, default='')
    @depend_on_related('Vet')
    @oracle
    def vet_name(self):
        return s(self.vet.name) if self.vet_id is not None else '-'

    @denormalized(models.CharField, max_length=100, default='')
    @oracle
    def tag(self):
        return '%s:%s' % (type(self).__name__[:3], s(self.name))

    class Meta:
        abstract = True


class Cat(Animal):
    lives = models.IntegerField(default=9)


class Dog(Animal):
    tricks = models.CharField(max_length=30, null=True)

    @denormalized(models.CharField, max_length=100, default='')
    @oracle
    def loud(self):
        return s(self.tricks).upper()


class LoudDog(Dog):
    class Meta:
        proxy = True


# --- a counter declared in an abstract base
class Counted(models.Model):
    n = CountField('entries')
    title = models.CharField(max_length=30, null=True)

    class Meta:
        abstract = True


class Diary(Counted):
    pass


class Log(Counted):
    pass


class DiaryEntry(models.Model):
    diary = models.ForeignKey(Diary, null=True, related_name='entries', on_delete=models.CASCADE)


class LogEntry(models.Model):
    log = models.ForeignKey(Log, null=True, related_name='entries', on_delete=models.CASCADE)


# --- multi-table inheritance
class Place(models.Model):
    name = models.CharField(max_length=40, null=True)
    owner = models.ForeignKey(Owner, null=True, related_name='places', on_delete=models.CASCADE)

    n_visits = CountField('visits')

    @denormalized(models.TextField, default='')
    @depend_on_related('Owner')
    @oracle
    def place_owner(self):
        return s(self.owner.name) if self.owner_id is not None else '-'

    @denormalized(models.TextField, default='')
    @oracle
    def upper(self):
        return '%s %s' % (s(self.name).upper(), self.n_visits)


class Pub(Place):
    beer = models.CharField(max_length=40, null=True)

    n_taps = CountField('taps')

    @denormalized(models.TextField, default='')
    @oracle
    def offer(self):
        return '%s x%s' % (s(self.beer), self.n_taps)

    @denormalized(models.TextField, default='')
    @depend_on_related('Tap')
    @oracle
    def tap_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Tap.objects.filter(pub_id=self.pk)))


class Tap(models.Model):
    pub = models.ForeignKey(Pub, null=True, related_name='taps', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Pub')
    @oracle
    def pub_beer(self):
        return s(self.pub.beer) if self.pub_id is not None else '-'


class Visit(models.Model):
    place = models.ForeignKey(Place, null=True, related_name='visits', on_delete=models.CASCADE)

    @denormalized(models.TextField, default='')
    @depend_on_related('Place')
    @oracle
    def place_name(self):
        return '%s|%s' % (s(self.place.name), self.place.place_owner) if self.place_id is not None else '-'


@aggregate('Owner', 'n_cats')
def _(o):
    return Cat.objects.filter(owner_id=o.pk).count()


@aggregate('Owner', 'n_dogs')
def _(o):
    return Dog.objects.filter(owner_id=o.pk).count()


@aggregate('Owner', 'age_sum')
def _(o):
    return sum(Dog.objects.filter(owner_id=o.pk).values_list('age', flat=True))


@aggregate('Diary', 'n')
def _(o):
    return DiaryEntry.objects.filter(diary_id=o.pk).count()


@aggregate('Log', 'n')
def _(o):
    return LogEntry.objects.filter(log_id=o.pk).count()


@aggregate('Place', 'n_visits')
def _(o):
    return Visit.objects.filter(place_id=o.pk).count()


@aggregate('Pub', 'n_taps')
def _(o):
    return Tap.objects.filter(pub_id=o.pk).count()


@cachekey('Cat', 'ckey')
def _(o):
    return Vet.objects.filter(pk=o.vet_id).values_list()


@cachekey('Dog', 'ckey')
def _(o):
    return Vet.objects.filter(pk=o.vet_id).values_list()
