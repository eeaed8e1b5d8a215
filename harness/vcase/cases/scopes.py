# -*- coding: utf-8 -*-
"""Models that have nothing to do with each other, with names that contain each other, for rebuilds of one of them."""
from django.db import models

from denorm import CountField, denormalized, depend_on_related
from vcase.spec import aggregate, oracle


def s(v):
    return '~' if v is None else str(v)


class Part(models.Model):
    name = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @oracle
    def label(self):
        return '<%s>' % s(self.name)

    @denormalized(models.TextField, default='')
    @oracle
    def label_long(self):
        return 'long <%s>' % s(self.name)


class PartKind(models.Model):
    name = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @oracle
    def label(self):
        return '[%s]' % s(self.name)

    @denormalized(models.TextField, default='')
    @oracle
    def lab(self):
        return '[[%s]]' % s(self.name)


class Kind(models.Model):
    name = models.CharField(max_length=30, null=True)

    n_bits = CountField('bits')

    @denormalized(models.IntegerField, default=-1)
    @oracle
    def size(self):
        return len(s(self.name))


class Bit(models.Model):
    kind = models.ForeignKey(Kind, null=True, related_name='bits', on_delete=models.CASCADE)
    name = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @oracle
    def label_long(self):
        return 'bit %s' % s(self.name)


# named like the application
class Vcase(models.Model):
    name = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @oracle
    def label(self):
        return '(%s)' % s(self.name)

    # of itself only
    @denormalized(models.TextField, default='')
    @depend_on_related('Vcase_Part')
    @oracle
    def parts(self):
        return ','.join(sorted(s(p.label) for p in Vcase_Part.objects.filter(vcase=self.pk)))


class Vcase_Part(models.Model):
    vcase = models.ForeignKey(Vcase, null=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=30, null=True)

    @denormalized(models.TextField, default='')
    @oracle
    def label(self):
        return '{%s}' % s(self.name)


@aggregate('Kind', 'n_bits')
def _(o):
    return Bit.objects.filter(kind=o.pk).count()
