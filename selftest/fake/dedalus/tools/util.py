CONST = 11
def helper(a, b):
    return a * b + CONST
class Thing:
    def __init__(self, v): self._v = v
    def val(self): return helper(self._v, 1)
