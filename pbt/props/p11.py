"""Amounts attached to requests of generated contract classes."""
from ..core import Facet
from .p10 import cases, check

FACETS = [Facet('amounts', lambda: cases(odd=False, size=10), check, 1300, 60000,
                'every request; distinct by name, declaration, outcome and whether coins are attached')]
