# -*- coding: utf-8 -*-
"""No models: the scenario makes its own."""
