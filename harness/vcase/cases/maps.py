# -*- coding: utf-8 -*-
"""Column types only PostgreSQL and PostGIS have."""
import json

from django.contrib.gis.db import models
from django.contrib.postgres.fields import ArrayField, CITextField, DateRangeField, HStoreField, JSONField

from denorm import CacheKeyField, denormalized, depend_on_related
from vcase.spec import cachekey, depends, oracle


class OldJSONField(models.TextField):
    """As many projects have it."""

    def db_type(self, connection):
        return 'json'

    def from_db_value(self, value, *args):
        return value if value is None else json.dumps(value, sort_keys=True)


class Place(models.Model):
    spot = models.PointField(null=True)
    area = models.PolygonField(null=True, srid=3857)
    any = models.GeometryField(null=True, dim=3)
    tags = ArrayField(models.CharField(max_length=20, null=True), null=True)
    info = JSONField(null=True)
    names = HStoreField(null=True)
    open = DateRangeField(null=True)
    label = CITextField(null=True)
    old = OldJSONField(null=True)


def shown(o):
    out = []
    for n in ('spot', 'area', 'any'):
        v = getattr(o, n)
        out.append(v if v is None else v.ewkt)
    return '%s %s' % (out, [o.tags, sorted((o.info or {}).items()), sorted((o.names or {}).items()), str(o.open), o.label, o.old])


class Route(models.Model):
    start = models.ForeignKey(Place, null=True, on_delete=models.CASCADE)
    name = models.CharField(max_length=20, null=True)

    @denormalized(models.TextField, default='')
    @depend_on_related(Place)
    @oracle
    def all(self):
        return shown(self.start) if self.start_id is not None else '-'

    @denormalized(models.PointField, null=True)
    @depend_on_related(Place)
    @oracle
    def at(self):
        return self.start.spot if self.start_id is not None else None

    @denormalized(ArrayField, models.CharField(max_length=20, null=True), null=True)
    @depend_on_related(Place)
    @oracle
    def tags(self):
        return self.start.tags if self.start_id is not None else None

    @denormalized(JSONField, null=True)
    @depend_on_related(Place)
    @oracle
    def info(self):
        return self.start.info if self.start_id is not None else None

    key = CacheKeyField()
    key.depend_on_related(Place)


VALUES = {
    ('Place', 'spot'): ['SRID=4326;POINT (1 2)', 'SRID=4326;POINT (1 2.000001)', 'SRID=4326;POINT (0 0)', None],
    # the same box around them
    ('Place', 'area'): ['SRID=3857;POLYGON ((0 0, 0 9, 9 9, 9 0, 0 0))', 'SRID=3857;POLYGON ((0 0, 0 9, 9 9, 9 0, 5 1, 0 0))', None],
    ('Place', 'any'): ['SRID=4326;POINT Z (1 2 3)', 'SRID=4326;POINT Z (1 2 4)', 'SRID=4326;LINESTRING Z (0 0 1, 1 1 1)', None],
    ('Place', 'tags'): [[], ['a'], ['A'], ['a', None], [''], None],
    ('Place', 'info'): [{}, {'a': 1}, {'a': '1'}, {'a': None}, None],
    ('Place', 'names'): [{}, {'a': 'b'}, {'a': 'B'}, {'a': None}, None],
    ('Place', 'open'): [('2001-01-01', '2001-02-01'), ('2001-01-01', '2001-02-02'), ('2001-01-01', None), None],
    ('Place', 'label'): ['a', 'A', 'a ', '', None],
    ('Place', 'old'): ['{"a": 1}', '{"a": 2}', '[1, "A"]', '{}', None],
}


@cachekey('Route', 'key')
def _(o):
    return [shown(x) for x in Place.objects.filter(pk=o.start_id)]


@depends('Route')
def _(o):
    return [shown(x) for x in Place.objects.filter(pk=o.start_id)] + [o.start_id, o.name]
