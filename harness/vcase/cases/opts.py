# -*- coding: utf-8 -*-
"""Every field the package offers with the options fields have, for migrations."""
from django.core.cache import cache
from django.db import connection, models

from denorm import CacheKeyField, CountField, cached, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cached_oracle, cachekey, oracle

FILTERED = connection.vendor != 'sqlite'


def start():
    return 'start'


class Club(models.Model):
    code = models.CharField(max_length=10, null=True)
    active = models.BooleanField(default=True)

    n_all = CountField('members', db_column='Total', verbose_name='all', help_text='members', db_index=True)
    n_sum = SumField('members', field='fee', db_column='fees', verbose_name='sum of fees')
    if FILTERED:
        n_paying = CountField('members', filter={'paying': True}, exclude={'fee': 0})
    key = CacheKeyField(db_column='k', verbose_name='cache key', db_index=True)
    key.depend_on_related('Member')

    @denormalized(models.CharField, 'label of it', max_length=33, db_column='Lbl', db_index=True, default='', blank=True,
                  help_text='text', choices=(('a', 'A'), ('b', 'B')))
    @oracle
    def label(self):
        return str(self.code)[:33]

    @denormalized(models.DecimalField, max_digits=7, decimal_places=3, null=True)
    @oracle
    def ratio(self):
        return None

    @denormalized(models.BooleanField, default=False)
    @oracle
    def is_open(self):
        return self.active

    @denormalized(models.CharField, max_length=12, default=start)
    @oracle
    def begun(self):
        return 'start'

    @denormalized(models.ManyToManyField, 'Badge', blank=True, related_name='clubs_wearing', db_table='opts_wearing')
    @depend_on_related('Member')
    @oracle
    def worn(self):
        return [m.badge for m in self.members.all() if m.badge_id is not None]

    class Meta:
        ordering = ['code']
        index_together = [('code', 'label')]


class Badge(models.Model):
    sign = models.CharField(max_length=5)

    @denormalized(models.SlugField, max_length=40, default='')
    @oracle
    def slug(self):
        return self.sign


class Member(models.Model):
    club = models.ForeignKey(Club, null=True, related_name='members', on_delete=models.CASCADE)
    badge = models.ForeignKey(Badge, null=True, on_delete=models.CASCADE)
    fee = models.PositiveIntegerField(default=0)
    paying = models.BooleanField(default=False)

    @denormalized(models.ForeignKey, Badge, null=True, related_name='wearers', db_column='first_badge',
                  on_delete=models.SET_NULL, db_index=False)
    @depend_on_related(Club)
    @oracle
    def first(self):
        return self.badge_id

    @denormalized(models.OneToOneField, Badge, null=True, related_name='only_wearer', on_delete=models.SET_NULL)
    @depend_on_related(Club)
    @oracle
    def only(self):
        return None

    @cached(cache, db_column='cached_card')
    @depend_on_related(Club)
    @cached_oracle
    def card(self):
        return 'x'


@aggregate('Club', 'n_all')
def _(o):
    return Member.objects.filter(club_id=o.pk).count()


@aggregate('Club', 'n_sum')
def _(o):
    return sum(Member.objects.filter(club_id=o.pk).values_list('fee', flat=True))


if FILTERED:
    @aggregate('Club', 'n_paying')
    def _(o):
        return Member.objects.filter(club_id=o.pk, paying=True).exclude(fee=0).count()


@cachekey('Club', 'key')
def _(o):
    return sorted(Member.objects.filter(club_id=o.pk).values_list())
