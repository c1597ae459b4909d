"""Stand-in for citation support: knows what has been declared, refuses what has not."""


class Undeclared(Exception):
    pass


KNOWN = {}


class Citations:
    def add(self, key, entry):
        KNOWN[key] = entry

    def register(self, key):
        if key not in KNOWN:
            raise Undeclared(key)
