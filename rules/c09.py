"""C09: required flags follow the dictionary nesting rules."""
from .loader import *


def check(c):
    c.rule = ('for every way a member is added, is_msg_req_field afterwards is what it was before, plus the member when its own flag and the flag '
              'of the direct component or group reference hold; expansions are called with the own flag of the reference')
    L = Loader(c)
    L.contents({'flags'})
