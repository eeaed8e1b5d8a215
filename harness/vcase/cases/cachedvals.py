# -*- coding: utf-8 -*-
"""Values that live in a cache under keys the triggers renew."""
from django.core.cache import cache
from django.db import models

from denorm import cached, depend_on_related
from vcase.spec import cached_oracle

# updates of the own columns are not noticed unless the object is saved
SAVE_ONLY = ('Band', 'Album', 'Tape', 'Disc')
# and a cascade must not update them either


def s(v):
    return '~' if v is None else str(v)


class Label(models.Model):
    name = models.CharField(max_length=40, null=True)


class Band(models.Model):
    name = models.CharField(max_length=40, null=True)
    labels = models.ManyToManyField(Label)

    # forward m2m
    @cached(cache)
    @depend_on_related(Label)
    @cached_oracle
    def label_names(self):
        return ','.join(sorted(s(x.name) for x in self.labels.all())) if self.pk else ''


class Album(models.Model):
    band = models.ForeignKey(Band, null=True, on_delete=models.CASCADE)
    title = models.CharField(max_length=40, null=True)

    # forward foreign key and own columns
    @cached(cache)
    @depend_on_related(Band)
    @cached_oracle
    def full(self):
        return '%s by %s' % (s(self.title), s(self.band.name) if self.band_id is not None else '-')

    # two relations in one value
    @cached(cache)
    @depend_on_related('Track')
    @depend_on_related(Band)
    @cached_oracle
    def listing(self):
        if not self.pk:
            return ''
        return '%s: %s' % (s(self.band.name) if self.band_id is not None else '-',
                           '|'.join(sorted('%s/%s' % (s(t.name), t.length) for t in self.track_set.all())))


class Track(models.Model):
    album = models.ForeignKey(Album, null=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)
    length = models.IntegerField(default=0)


class Medium(models.Model):
    """The same declaration in two models."""
    label = models.ForeignKey(Label, null=True, on_delete=models.CASCADE)
    code = models.CharField(max_length=10, null=True)

    @cached(cache)
    @depend_on_related(Label)
    @cached_oracle
    def sleeve(self):
        return '%s@%s' % (s(self.code), s(self.label.name) if self.label_id is not None else '-')

    class Meta:
        abstract = True


class Tape(Medium):
    pass


class Disc(Medium):
    pass
