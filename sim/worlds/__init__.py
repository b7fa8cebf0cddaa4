# prop id -> world
_mods = {}


def get(prop):
    name = 'worlds.' + prop.lower()
    __import__(name)
    import sys
    return sys.modules[name]
