"""Stand-in for the `getclass` package, which is not installed here.

event-generator only uses ``getclass(obj)`` to obtain the class of an object.
"""


def getclass(obj):
    return obj if isinstance(obj, type) else type(obj)
