# -*- coding: utf-8 -*-
"""For the setting without protection of the own table: models with functions are written by saving objects only, the
models they depend on by anything."""
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, oracle

# only changed by saving objects
ORM_ONLY = ('Firm', 'Team', 'Worker', 'Job')
# a saved instance computes with the related objects it holds
TOUCH = False


def s(v):
    return '~' if v is None else str(v)


class Town(models.Model):
    name = models.CharField(max_length=30, null=True)
    size = models.IntegerField(null=True)


class Skill(models.Model):
    name = models.CharField(max_length=30, null=True)


class Memo(models.Model):
    text = models.CharField(max_length=30, null=True)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')


class Firm(models.Model):
    name = models.CharField(max_length=30, null=True)
    town = models.ForeignKey(Town, null=True, on_delete=models.CASCADE)
    memos = GenericRelation(Memo)

    n_bills = CountField('bills')
    total = SumField('bills', field='amount')
    key = CacheKeyField()
    key.depend_on_related(Town)

    # forward foreign key
    @denormalized(models.TextField, default='')
    @depend_on_related(Town)
    @oracle
    def address(self):
        return '%s in %s' % (s(self.name), '%s/%s' % (s(self.town.name), s(self.town.size)) if self.town_id else '-')

    # backward, of a model without functions and of one with
    @denormalized(models.TextField, default='')
    @depend_on_related('Bill')
    @depend_on_related('Team')
    @oracle
    def overview(self):
        if self.pk is None:
            return '|'
        return '%s|%s' % (','.join(sorted(str(b.amount) for b in self.bills.all())),
                          ','.join(sorted(t.label for t in self.team_set.all())))

    # generic
    @denormalized(models.TextField, default='')
    @depend_on_related(Memo)
    @oracle
    def memo_texts(self):
        return ','.join(sorted(s(m.text) for m in self.memos.all())) if self.pk is not None else ''


class Bill(models.Model):
    firm = models.ForeignKey(Firm, null=True, related_name='bills', on_delete=models.CASCADE)
    amount = models.PositiveIntegerField(default=1)


class Team(models.Model):
    firm = models.ForeignKey(Firm, null=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=30, null=True)
    skills = models.ManyToManyField(Skill)

    # m2m
    @denormalized(models.TextField, default='')
    @depend_on_related(Skill)
    @oracle
    def label(self):
        if self.pk is None:
            return s(self.name) + '()'
        return '%s(%s)' % (s(self.name), ','.join(sorted(s(x.name) for x in self.skills.all())))


class Worker(models.Model):
    team = models.ForeignKey(Team, null=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=30, null=True)

    # chained
    @denormalized(models.TextField, default='')
    @depend_on_related(Team)
    @oracle
    def card(self):
        return '%s of %s' % (s(self.name), self.team.label if self.team_id is not None else '-')

    # m2m with a function
    @denormalized(models.ManyToManyField, Skill, blank=True, related_name='able')
    @depend_on_related('Job')
    @oracle
    def able_to(self):
        if self.pk is None:
            return []
        return [j.skill for j in self.jobs.all() if j.skill_id is not None]


class Job(models.Model):
    worker = models.ForeignKey(Worker, null=True, related_name='jobs', on_delete=models.CASCADE)
    skill = models.ForeignKey(Skill, null=True, on_delete=models.CASCADE)

    @denormalized(models.ForeignKey, Team, null=True, related_name='+', on_delete=models.CASCADE)
    @depend_on_related(Worker)
    @oracle
    def for_team(self):
        return self.worker.team_id if self.worker_id is not None else None


@aggregate('Firm', 'n_bills')
def _(o):
    return Bill.objects.filter(firm=o.pk).count()


@aggregate('Firm', 'total')
def _(o):
    return sum(Bill.objects.filter(firm=o.pk).values_list('amount', flat=True))


@cachekey('Firm', 'key')
def _(o):
    return list(Town.objects.filter(pk=o.town_id).values_list())
