# -*- coding: utf-8 -*-
"""Identifiers: reserved words, mixed case, columns and tables named independently of the fields."""
from django.db import models

from denorm import CacheKeyField, CountField, denormalized, depend_on_related
from denorm.fields import SumField
from vcase.spec import aggregate, cachekey, oracle


def s(v):
    return '~' if v is None else str(v)


class Order(models.Model):
    Customer = models.CharField(max_length=40, null=True)
    group = models.IntegerField(null=True, db_column='Group')
    ident = models.AutoField(primary_key=True, db_column='Key')

    count = CountField('lines', db_column='CountOfLines')
    total = SumField('lines', field='amount', db_column='sum')
    key = CacheKeyField(db_column='CacheKey')
    key.depend_on_related('OrderLine')

    @denormalized(models.TextField, default='', db_column='select')
    @depend_on_related('OrderLine')
    @oracle
    def Texts(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.Text) for x in OrderLine.objects.filter(order_id=self.pk)))

    @denormalized(models.TextField, default='', db_column='Where')
    @oracle
    def me(self):
        return '%s/%s/%s' % (s(self.Customer), self.group, self.count)

    class Meta:
        db_table = 'Order'


class OrderLine(models.Model):
    order = models.ForeignKey(Order, null=True, related_name='lines', on_delete=models.CASCADE, db_column='From')
    Text = models.CharField(max_length=40, null=True, db_column='TEXT')
    amount = models.PositiveIntegerField(default=1, db_column='Amount')
    tags = models.ManyToManyField('Label', db_table='LineToLabel')

    @denormalized(models.TextField, default='')
    @depend_on_related('Order')
    @oracle
    def customer(self):
        return s(self.order.Customer) if self.order_id is not None else '-'

    @denormalized(models.TextField, default='', db_column='LabelsColumn')
    @depend_on_related('Label')
    @oracle
    def label_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.Name) for x in Label.objects.filter(orderline=self.pk)))

    class Meta:
        db_table = 'OrderLines'


class Label(models.Model):
    Id = models.AutoField(primary_key=True)
    Name = models.CharField(max_length=40, null=True, db_column='Name')

    labelkey = CacheKeyField(db_column='LabelKey')
    labelkey.depend_on_related('OrderLine')

    @denormalized(models.TextField, default='')
    @depend_on_related('OrderLine')
    @oracle
    def used(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(s(x.Text) for x in OrderLine.objects.filter(tags=self.pk)))

    class Meta:
        db_table = 'Label'


class Stamp(models.Model):
    order = models.ForeignKey(Order, null=True, related_name='stamps', on_delete=models.CASCADE, db_column='Order')

    key = CacheKeyField()
    key.depend_on_related('Order')
    # the name of the column is that of another field
    From = models.CharField(max_length=30, null=True, db_column='when')
    when = models.IntegerField(null=True, db_column='From')

    @denormalized(models.TextField, default='', db_column='Desc')
    @oracle
    def desc(self):
        return '%s/%s' % (s(self.From), self.when)


@aggregate('Order', 'count')
def _(o):
    return OrderLine.objects.filter(order_id=o.pk).count()


@aggregate('Order', 'total')
def _(o):
    return sum(OrderLine.objects.filter(order_id=o.pk).values_list('amount', flat=True))


@cachekey('Order', 'key')
def _(o):
    return OrderLine.objects.filter(order_id=o.pk).values_list()


@cachekey('Stamp', 'key')
def _(o):
    return Order.objects.filter(pk=o.order_id).values_list()


@cachekey('Label', 'labelkey')
def _(o):
    return OrderLine.objects.filter(tags=o.pk).values_list()
