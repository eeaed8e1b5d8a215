# -*- coding: utf-8 -*-
"""Counters and sums of some of the related rows (not supported on SQLite)."""
from django.db import connection, models

from denorm import CountField, denormalized
from denorm.fields import SumField
from vcase.spec import aggregate, oracle

STRINGS = {'kind': ['a', 'b', 'A', "o'k", 'per%cent', '%s', 'a;b', 'back\\slash'], 'mark': ['', 'x', 'y']}


def where(**kw):
    return kw if connection.vendor != 'sqlite' else {}


class Stall(models.Model):
    name = models.CharField(max_length=40)
    n_all = CountField('sales')
    n_paid = CountField('sales', filter=where(paid__exact=True))
    n_big = CountField('sales', filter=where(amount__gt=2, paid__exact=False))
    n_kind = CountField('sales', filter=where(kind__exact="o'k"))
    n_odd = CountField('sales', filter=where(kind__in=['%s', 'per%cent']))
    n_open = CountField('sales', filter=where(mark__isnull=True))
    n_range = CountField('sales', filter=where(amount__range=(0, 3)))
    n_rest = CountField('sales', filter=where(amount__gte=0), exclude=where(paid__exact=True))
    n_not = CountField('sales', exclude=where(paid__exact=True))
    n_unmarked = CountField('sales', exclude=where(mark__exact='x'))
    s_all = SumField('sales', field='amount')
    s_paid = SumField('sales', field='amount', filter=where(paid__exact=True))
    s_not = SumField('sales', field='bonus', filter=where(amount__lt=3), exclude=where(paid__exact=True))

    @denormalized(models.TextField, default='')
    @oracle
    def report(self):
        return '%s: %s of %s' % (self.name, self.n_paid, self.n_all)


class Sale(models.Model):
    stall = models.ForeignKey(Stall, null=True, related_name='sales', on_delete=models.CASCADE)
    amount = models.PositiveIntegerField()
    bonus = models.PositiveIntegerField(null=True)
    paid = models.BooleanField(default=False)
    kind = models.CharField(max_length=20)
    mark = models.CharField(max_length=20, null=True)


def expected(name, keep, total=None):
    def fn(stall):
        rows = [x for x in Sale.objects.filter(stall_id=stall.pk) if connection.vendor == 'sqlite' or keep(x)]
        return len(rows) if total is None else sum(getattr(x, total) or 0 for x in rows)
    aggregate('Stall', name)(fn)


expected('n_all', lambda x: True)
expected('n_paid', lambda x: x.paid)
expected('n_big', lambda x: x.amount > 2 and not x.paid)
expected('n_kind', lambda x: x.kind == "o'k")
expected('n_odd', lambda x: x.kind in ('%s', 'per%cent'))
expected('n_open', lambda x: x.mark is None)
expected('n_range', lambda x: 0 <= x.amount <= 3)
expected('n_rest', lambda x: x.amount >= 0 and not x.paid)
expected('n_not', lambda x: not x.paid)
expected('n_unmarked', lambda x: x.mark != 'x')
expected('s_all', lambda x: True, 'amount')
expected('s_paid', lambda x: x.paid, 'amount')
expected('s_not', lambda x: x.amount < 3 and not x.paid, 'bonus')
