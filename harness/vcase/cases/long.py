# -*- coding: utf-8 -*-
"""Table names near the length limits that only differ at the end."""
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from vcase.spec import aggregate, cachekey, oracle


def s(v):
    return '~' if v is None else str(v)


P = 'a_table_with_a_name_that_is_about_as_long_as_can_be_'


class Alpha(models.Model):
    name = models.CharField(max_length=40, null=True)
    n = CountField('betas')
    ckey = CacheKeyField()
    ckey.depend_on_related('Beta')

    @denormalized(models.TextField, default='')
    @depend_on_related('Beta')
    @oracle
    def names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Beta.objects.filter(alpha_id=self.pk)))

    class Meta:
        db_table = P + 'alpha'


class Beta(models.Model):
    alpha = models.ForeignKey(Alpha, null=True, related_name='betas', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)
    gammas = models.ManyToManyField('Gamma', db_table=P + 'beta_gamma')

    @denormalized(models.TextField, default='')
    @depend_on_related('Alpha')
    @oracle
    def alpha_name(self):
        return s(self.alpha.name) if self.alpha_id is not None else '-'

    @denormalized(models.TextField, default='')
    @depend_on_related('Gamma')
    @oracle
    def gamma_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Gamma.objects.filter(beta=self.pk)))

    class Meta:
        db_table = P + 'beta'


class Gamma(models.Model):
    name = models.CharField(max_length=40, null=True)
    n = models.IntegerField(null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Beta')
    @oracle
    def beta_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.name) for x in Beta.objects.filter(gammas=self.pk)))

    class Meta:
        db_table = P + 'gamma'


class Delta(models.Model):
    gamma = models.ForeignKey(Gamma, null=True, related_name='deltas', on_delete=models.CASCADE)
    name = models.CharField(max_length=40, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related('Gamma')
    @oracle
    def gamma_name(self):
        return '%s %s' % (s(self.gamma.name), self.gamma.n) if self.gamma_id is not None else '-'

    class Meta:
        db_table = P + 'delta'


@aggregate('Alpha', 'n')
def _(o):
    return Beta.objects.filter(alpha_id=o.pk).count()


@cachekey('Alpha', 'ckey')
def _(o):
    return Beta.objects.filter(alpha_id=o.pk).values_list()
