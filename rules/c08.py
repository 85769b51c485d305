"""C08: dictionary lookups answer exactly what the dictionary file declares."""
from .loader import *


def check(c):
    c.rule = ('every iteration over elements of the dictionary file changes the answers of the public queries, for any message type and tag, '
              'by exactly what the element declares; recursive expansions are checked once per function and assumed at their calls; '
              'repeated declarations have no path that goes on')
    L = Loader(c)
    L.contents({'tables'})
    L.groups()
    L.fields()
    L.values()
    L.components()
    L.messages()
    L.assembled()
    L.queries()
