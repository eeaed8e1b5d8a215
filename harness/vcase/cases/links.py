# -*- coding: utf-8 -*-
"""Relations with something special: through models, relations of a model with itself, generic relations with custom
columns, several relations between two models, foreign keys to a unique column."""
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

from denorm import CacheKeyField, denormalized, depend_on_related
from vcase.spec import cachekey, depends, oracle


GENERIC_MODELS = ('Film', 'Prop')


def s(v):
    return '~' if v is None else str(v)


class Actor(models.Model):
    name = models.CharField(max_length=40, null=True)
    friends = models.ManyToManyField('self')
    follows = models.ManyToManyField('self', symmetrical=False, related_name='followers')

    @denormalized(models.TextField, default='')
    @depend_on_related('Film', foreign_key='cast')
    @oracle
    def films(self):
        if self.pk is None:
            return ''
        return ','.join(sorted('%s' % s(f.title) for f in Film.objects.filter(cast=self.pk)))

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward_m2m', foreign_key='friends')
    @oracle
    def friend_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in self.friends.all()))

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward_m2m', foreign_key='follows')
    @oracle
    def followed(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Actor.objects.filter(followers=self.pk)))

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='backward_m2m', foreign_key='follows')
    @oracle
    def fans(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Actor.objects.filter(follows=self.pk)))


class Film(models.Model):
    title = models.CharField(max_length=40, null=True)
    cast = models.ManyToManyField(Actor, through='Role')
    lead = models.ForeignKey(Actor, null=True, related_name='+', on_delete=models.SET_NULL)
    notes = GenericRelation('Note', content_type_field='kind', object_id_field='thing')

    ckey = CacheKeyField()
    ckey.depend_on_related('Actor', foreign_key='cast')

    @denormalized(models.TextField, default='')
    @depend_on_related('Actor', foreign_key='cast')
    @oracle
    def actor_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(a.name) for a in Actor.objects.filter(film=self.pk)))

    @denormalized(models.TextField, default='')
    @depend_on_related('Actor', foreign_key='lead', type='forward')
    @oracle
    def lead_name(self):
        return s(self.lead.name) if self.lead_id is not None else '-'

    @denormalized(models.TextField, default='')
    @depend_on_related('Note')
    @oracle
    def note_texts(self):
        return ','.join(sorted(s(n.text) for n in self.notes.all())) if self.pk else ''


class Role(models.Model):
    film = models.ForeignKey(Film, on_delete=models.CASCADE)
    actor = models.ForeignKey(Actor, on_delete=models.CASCADE)


class Prop(models.Model):
    label = models.CharField(max_length=40, null=True)
    films = models.ManyToManyField(Film, related_name='props', db_table='links_prop_in_film')
    notes = GenericRelation('Note', content_type_field='kind', object_id_field='thing')

    @denormalized(models.TextField, default='')
    @depend_on_related('Note')
    @oracle
    def note_texts(self):
        return ','.join(sorted(s(n.text) for n in self.notes.all())) if self.pk else ''

    @denormalized(models.TextField, default='')
    @depend_on_related('Film')
    @oracle
    def film_leads(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(f.lead_name for f in Film.objects.filter(props=self.pk)))


class Note(models.Model):
    text = models.CharField(max_length=40, null=True)
    kind = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    thing = models.PositiveIntegerField()
    target = GenericForeignKey('kind', 'thing')


@cachekey('Film', 'ckey')
def _(o):
    return Actor.objects.filter(film=o.pk).values_list()


def rows(*querysets):
    return [(i,) + r for i, qs in enumerate(querysets) for r in qs.values_list()]


def notes(o):
    return Note.objects.filter(kind=ContentType.objects.get_for_model(o), thing=o.pk)


@depends('Actor')
def _(o):
    return rows(Film.objects.filter(cast=o.pk), Actor.objects.filter(friends=o.pk), Actor.objects.filter(followers=o.pk),
                Actor.objects.filter(follows=o.pk), Actor.friends.through.objects.filter(from_actor=o.pk), Role.objects.filter(actor=o.pk))


@depends('Film')
def _(o):
    return rows(Actor.objects.filter(film=o.pk), Actor.objects.filter(pk=o.lead_id), Role.objects.filter(film=o.pk),
                notes(o))


@depends('Prop')
def _(o):
    return rows(Film.objects.filter(props=o.pk), notes(o))
